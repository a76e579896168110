"""Builds GRIB2 octets.  Nothing here is an oracle: the specifications read the octets themselves."""
import struct


def u(x, n):
    return int(x).to_bytes(n, "big")


def s(x, n):
    """sign and magnitude"""
    return u((1 << (8 * n - 1)) | -x, n) if x < 0 else u(x, n)


def f32(x):
    return struct.pack(">f", x)


def sect(num, body):
    return u(len(body) + 5, 4) + bytes([num]) + bytes(body)


def msg(sects, disc=0, version=2, total=None, end=b"7777"):
    body = b"".join(sects)
    t = len(body) + 16 + len(end) if total is None else total
    return b"GRIB\0\0" + bytes([disc, version]) + u(t, 8) + body + end


def s1(centre=34, sub=0, mver=5, lver=1, sig=0, ymdhms=(2024, 2, 29, 12, 30, 59), status=0, typ=2, extra=b""):
    y, mo, d, h, mi, se = ymdhms
    return sect(1, u(centre, 2) + u(sub, 2) + bytes([mver, lver, sig]) + u(y, 2) + bytes([mo, d, h, mi, se, status, typ]) + extra)


def s2(body=b""):
    return sect(2, body)


def earth(shape=6, rs=0xff, rv=0xffffffff, as_=0xff, av=0xffffffff, bs=0xff, bv=0xffffffff):
    return bytes([shape, rs]) + u(rv, 4) + bytes([as_]) + u(av, 4) + bytes([bs]) + u(bv, 4)


def s3(tmpl, body, npts, src=0, nlist=0, interp=0, lst=b""):
    return sect(3, bytes([src]) + u(npts, 4) + bytes([nlist, interp]) + u(tmpl, 2) + body + lst)


def g_latlon(ni, nj, lat1=0, lon1=0, lat2=0, lon2=0, di=0, dj=0, scan=0, basic=0, sub=0xffffffff, flags=0x30, ea=None):
    return ((ea or earth()) + u(ni, 4) + u(nj, 4) + u(basic, 4) + u(sub, 4) + s(lat1, 4) + s(lon1, 4) + bytes([flags])
            + s(lat2, 4) + s(lon2, 4) + u(di, 4) + u(dj, 4) + bytes([scan]))


def s3_latlon(ni, nj, npts=None, **kw):
    return s3(0, g_latlon(ni, nj, **kw), ni * nj if npts is None else npts)


def s4(tmpl=0, body=None, coords=b"", nv=0, cat=1, num=2):
    if body is None:
        body = bytes([cat, num, 2, 0, 31]) + u(0, 2) + bytes([0, 1]) + u(6, 4) + bytes([103, 0]) + u(2, 4) + bytes([255, 0]) + u(0, 4)
    return sect(4, u(nv, 2) + u(tmpl, 2) + body + coords)


def s5(tmpl, npts, body):
    return sect(5, u(npts, 4) + u(tmpl, 2) + body)


def t_simple(ref=0.0, e=0, d=0, nbit=8, typ=0):
    return (f32(ref) if isinstance(ref, float) else u(ref, 4)) + s(e, 2) + s(d, 2) + bytes([nbit, typ])


def s6(ind=255, bits=b""):
    return sect(6, bytes([ind]) + bits)


def s7(data=b""):
    return sect(7, data)


def pack(vals, n):
    """values of n bits each, one bit stream, zero padded to an octet"""
    x = 0
    for v in vals:
        x = x << n | v
    k = len(vals) * n
    pad = -k % 8
    return (x << pad).to_bytes((k + pad) // 8, "big")


def bits(items):
    """[(value, width)] as one bit stream"""
    x = k = 0
    for v, n in items:
        x = x << n | v
        k += n
    pad = -k % 8
    return (x << pad).to_bytes((k + pad) // 8, "big")


def field(rng=None, ni=3, nj=2, nbit=8, vals=None, cat=1, num=2, ref=0.0, e=0, d=0):
    vals = vals if vals is not None else list(range(ni * nj))
    return [s4(cat=cat, num=num), s5(0, len(vals), t_simple(ref, e, d, nbit)), s6(), s7(pack(vals, nbit))]


def simple_file(nfields=1, **kw):
    return msg([s1(), s3_latlon(kw.get("ni", 3), kw.get("nj", 2))] + sum((field(**kw) for _ in range(nfields)), []))


# --- random files ----------------------------------------------------------

def rnd_bytes(rng, n, alpha=None):
    if alpha:
        return bytes(rng.choice(alpha) for _ in range(n))
    return rng.randbytes(n)


GAPC = b"GRIB7\0\2"


def rnd_gap(rng, big=False):
    """octets that hold no start of a message"""
    kind = rng.randrange(6)
    if kind == 0:
        n = 0
    elif kind == 1:
        n = rng.randrange(1, 4)
    elif kind < 5:
        n = rng.randrange(0, 60)
    else:
        n = rng.choice([15, 16, 17, 4080, 4081, 4082, 4095, 4096, 4097, 8162, 8175, 8192]) + rng.randrange(-3, 4) if big else 100
    g = rnd_bytes(rng, max(n, 0), GAPC if rng.random() < .6 else None)
    while b"GRIB" in g + b"GRI":
        g = g.replace(b"GRIB", b"GRIG")
        if g.endswith(b"G"):
            break
    return g


def rnd_body(rng, lo, hi=40):
    n = rng.choice([lo, lo, lo + 1, rng.randrange(lo, hi)])
    return rnd_bytes(rng, n, GAPC if rng.random() < .5 else None)


def rnd_seq(rng, maxsub=4):
    """section numbers of a grammatical message, 0 and 8 left out"""
    q = [1]
    for i in range(rng.randrange(1, maxsub + 1)):
        r = rng.random()
        if i == 0 or r < .5:
            if rng.random() < .4:
                q.append(2)
            q.append(3)
        q += [4, 5, 6, 7]
    return q


LO = {1: 16, 2: 0, 3: 9, 4: 4, 5: 6, 6: 1, 7: 0}


def rnd_msg(rng, seq=None, real=False, hi=40):
    """a message of the given sections; list of (num, octets)"""
    out = []
    for n in (seq if seq is not None else rnd_seq(rng)):
        out.append(sect(n, rnd_body(rng, LO.get(n, 0), hi)))
    return out
