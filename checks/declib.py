"""Shared by the checks of decoding (C07-C14): fields, their files, records for TraceDecode.
The generators only have to hit interesting octets; TraceDecode reads the octets itself."""
import struct, zlib
from lib import core
from lib import gribbytes as gb

NOIMG = {"k": "none", "xs": []}


class Field:
    def __init__(self, npts, s5, s7, ind=255, bm=b"", img=NOIMG, label=""):
        self.npts, self.s5, self.s7, self.ind, self.bm, self.img, self.label = npts, bytes(s5), bytes(s7), ind, bytes(bm), img, label

    def file(self):
        return gb.msg([gb.s1(), gb.s3_latlon(max(self.npts, 1), 1, npts=self.npts), gb.s4(), gb.sect(5, self.s5),
                       gb.s6(self.ind, self.bm), gb.s7(self.s7)])

    def case(self, **kw):
        return dict(op="decode", data=self.file().hex(), sub=0, limit=4000, hints=kw.pop("hints", 1), **kw)

    def record(self, out):
        r = dict(npts=self.npts, ind=self.ind, bm=list(self.bm), s5=list(self.s5), s7=list(self.s7), img=self.img,
                 n=0, vals=[], hints=[], after=[], faults=out.get("faults", 0), jpeg=core.has_jpeg2000())
        return fill(r, out)


def fill(r, out):
    if out["open"]["k"] != "ok":
        k = out["open"]["k"]
        r["res"] = {"k": "unopened" if k == "err" and not r["faults"] else k}
        return r
    s = out["subs"][0]
    r["res"] = {"k": s["res"]["k"]}
    if "vals" in s:
        r.update(n=min(s["n"], 1 << 30), vals=[str(v) for v in s["vals"]], hints=[[min(x, 1 << 30) for x in h] for h in s["hints"]],
                 after=s["after"])
    return r


def check(c, fields, what, timeout=45, hints=1, opts=None):
    """Decodes the fields with the real code and holds the runs against TraceDecode."""
    cases = [f.case(hints=hints, **(opts[i] if opts else {})) for i, f in enumerate(fields)]
    outs = core.run_driver(cases, timeout=timeout)
    recs = [f.record(o) for f, o in zip(fields, outs)]
    c.count(len(fields))
    for f in fields[:300]:
        c.seen([f.s5.hex(), f.s7.hex(), f.bm.hex(), f.npts, f.ind])
    for i, e in core.validate("TraceDecode", recs, min_shard=25):
        f, o = fields[i], outs[i]
        got = recs[i]["vals"][:20] if recs[i]["res"]["k"] == "ok" else (o.get("subs", [o.get("open")])[0])
        c.violation(f"{what} {f.label}: {f.npts} points, section 5 {f.s5.hex()}, bitmap {f.ind} {f.bm.hex()[:40]}, section 7 "
                    f"{f.s7.hex()[:60]}: specified {str(e['want'])[:300]} observed {floats(got)}",
                    {"case": {k: v for k, v in cases[i].items()}, "specified": e["want"], "observed": o})
    return recs


def floats(v):
    if not isinstance(v, list):
        return str(v)[:300]
    return [None if x == "-1" else struct.unpack(">f", int(x).to_bytes(4, "big"))[0] for x in v]


# --- parameters -------------------------------------------------------------

def rnd_ref(rng):
    return rng.choice([0.0, 0.0, 0.0, 1.0, -1.0, 273.15, -0.5, 1e-7, -3.25e6, 101325.0, struct.unpack(">f", rng.randbytes(4))[0]])


def simple_params(rng, nbit, ref=None, typ=0, wild=True):
    """the 10 octets of simple packing's parameters"""
    ref = rnd_ref(rng) if ref is None else ref
    e = rng.choice([0, 0, 0, 1, -1, 3, -7, 12, -15, rng.randrange(-40, 41)] + ([rng.randrange(-100, 101)] if wild else []))
    d = rng.choice([0, 0, 0, 1, -1, 2, 5, -4, rng.randrange(-12, 13)])
    if wild and rng.random() < .12:  # extreme factors that make up for each other
        d = rng.choice([-37, -36, -31, 31, 33, 36, 37, rng.randrange(-37, 38)])
        e = max(-126, min(126, round(d * 3.3219) + rng.randrange(-24, 25)))
        ref = rng.choice([0.0, 1.0, -1.0, 3.25]) * 2.0 ** max(-120, min(90, e + rng.randrange(0, nbit + 2)))
    return struct.pack(">f", ref) + gb.s(e, 2) + gb.s(d, 2) + bytes([nbit, typ])


def s5_head(n, tmpl):
    return gb.u(n, 4) + gb.u(tmpl, 2)


def rnd_bitmap(rng, npts, pad=None):
    """octets and number of present points"""
    mode = rng.randrange(6)
    if mode == 0:
        b = [1] * npts
    elif mode == 1:
        b = [0] * npts
    elif mode == 2:
        b = [int(rng.random() < .1) for _ in range(npts)]
    elif mode == 3:
        b = [int(rng.random() < .9) for _ in range(npts)]
    else:
        b = [rng.randrange(2) for _ in range(npts)]
    ones = sum(b)
    b += [rng.randrange(2)] * (-npts % 8) if rng.random() < .5 else [rng.randrange(2) for _ in range(-npts % 8)]
    octs = gb.pack(b, 1)
    if rng.random() < .3:
        octs += rng.randbytes(rng.randrange(1, 4))
    return octs, ones


def rnd_codes(rng, n, nbit):
    top = (1 << nbit) - 1
    pick = [0, 1, top, max(top - 1, 0), 1 << max(nbit - 1, 0), rng.randrange(top + 1)]
    return [min(top, rng.choice(pick) if rng.random() < .3 else rng.randrange(top + 1)) for _ in range(n)]


# --- simple packing ---------------------------------------------------------

def simple(rng, nbit=None, npts=None, bitmap=None, extra=True):
    nbit = rng.randrange(0, 33) if nbit is None else nbit
    npts = rng.choice([0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 31, rng.randrange(1, 60)]) if npts is None else npts
    bitmap = rng.random() < .4 if bitmap is None else bitmap
    bm, ones = rnd_bitmap(rng, npts) if bitmap else (b"", npts)
    s7 = gb.pack(rnd_codes(rng, ones, nbit), nbit) if nbit else b""
    if extra and rng.random() < .15:
        s7 += rng.randbytes(rng.randrange(1, 4))
    return Field(npts, s5_head(ones, 0) + simple_params(rng, nbit), s7, 0 if bitmap else 255, bm, label=f"nbit {nbit}")


# --- complex packing --------------------------------------------------------

def complex_(rng, diff=None, mgmt=None, maxgroups=6, bitmap=None, octets=None, maxw=32, maxn=32, small=False):
    """Random groups, consistent tables; order 0 (5.2), 1 or 2 (5.3)."""
    order = rng.choice([0, 1, 2]) if diff is None else diff
    mgmt = rng.choice([0, 0, 1, 2]) if mgmt is None else mgmt
    ng = rng.randrange(0 if rng.random() < .1 else 1, maxgroups + 1)
    nbit = rng.choice([1, 2, 3, 5, 7, 8, 9, 11, 16, rng.randrange(1, maxn + 1)] + ([0] if mgmt == 0 else []))
    nbit = min(nbit, maxn)
    wref = rng.choice([0, 0, 1, 3])
    wbits = rng.choice([0, 1, 2, 3, 4, 5])
    if wref + (1 << wbits) - 1 > maxw:
        wbits = 2
    if rng.random() < .12:  # wide references, of constant groups too
        nbit = min(maxn, rng.choice([29, 30, 31, 32, 32]))
    if rng.random() < .08:  # tables wider than they need be
        wide = rng.choice([8, 9, 16, 24, 31, 32])
    else:
        wide = 0
    lref, linc = rng.choice([0, 1, 2, 3]), rng.choice([0, 1, 1, 2, 3])
    lbits = rng.choice([0, 1, 2, 3, 4])
    refs = rnd_codes(rng, ng, nbit)
    wt = rnd_codes(rng, ng, wbits)
    if rng.random() < .4:
        wt = [0 if rng.random() < .5 else w for w in wt]
    lt = rnd_codes(rng, ng, lbits)
    if wide and rng.random() < .6:
        wbits = max(wbits, wide)
    if wide and (wbits != wide or rng.random() < .5):
        lbits = max(lbits, wide)
    last = rng.randrange(0 if rng.random() < .1 else 1, 8)
    lens = [lref + linc * v for v in lt[:-1]] + [last] if ng else []
    widths = [wref + w for w in wt]
    n = sum(lens)
    items = []
    for w, k in zip(widths, lens):
        items += [(v, w) for v in rnd_codes(rng, k, w)] if w else []
    extra = b""
    oct_ = 0
    if order:
        oct_ = octets or rng.choice([1, 2, 3, 4])
        lim = (1 << (8 * oct_ - 1)) - 1
        for _ in range(order + 1):
            v = rng.choice([0, 1, -1, 5, -7, lim, -lim, rng.randrange(-lim, lim + 1)])
            extra += gb.s(max(-lim, min(lim, v)), oct_)
    s7 = extra + gb.pack(refs, nbit) + gb.pack(wt, wbits) + gb.pack(lt, lbits) + gb.bits(items)
    npts, bm, ind = n, b"", 255
    bitmap = rng.random() < .2 if bitmap is None else bitmap
    if bitmap:
        b = [1] * n + [0] * rng.randrange(0, 12)
        rng.shuffle(b)
        npts = len(b)
        bm, ind = gb.pack(b, 1), 0
    if ng > npts:
        npts = npts  # such fields are left open by the specification
    s5 = s5_head(n, 3 if order else 2)
    ref = rng.choice([0.0, 0.0, 0.0, 10.0, rnd_ref(rng)])
    s5 += simple_params(rng, nbit, ref=ref, wild=False)
    s5 += bytes([1, mgmt]) + rng.randbytes(8) + gb.u(ng, 4) + bytes([wref, wbits]) + gb.u(lref, 4) + bytes([linc]) + gb.u(last, 4) + bytes([lbits])
    if order:
        s5 += bytes([order, oct_])
    return Field(npts, s5, s7, ind, bm, label=f"order {order} missing {mgmt} groups {list(zip(refs, widths, lens))} nbit {nbit}")


# --- run lengths ------------------------------------------------------------

def runlength(rng, valid=True, nbit=None):
    nbit = nbit or rng.choice([1, 2, 3, 4, 4, 5, 7, 8, 8, 9, 12, 15, 16])
    top = (1 << nbit) - 1
    maxv = min(top, rng.choice([0, 1, 2, 3, top, max(top - 1, 0), max(top - 2, 0), max(top - 3, 0), top // 2, rng.randrange(top + 1)]))
    maxv = min(maxv, 65535)
    base = top - maxv
    codes, n = [], 0
    for _ in range(rng.randrange(1, 8)):
        codes.append(rng.randrange(maxv + 1) if rng.random() < .8 else rng.choice([0, maxv]))
        run = 1
        if base > 0 and rng.random() < .7:
            w = 1
            for _ in range(rng.randrange(1, 4)):
                dgt = rng.randrange(base) if w == 1 or w * base < 200 else 0
                if w * dgt > 300:
                    dgt = rng.randrange(0, max(1, 300 // w))
                run += dgt * w
                w *= base
                codes.append(maxv + 1 + dgt)
                if w > 400:
                    break
            if rng.random() < .1:  # higher digits that are zero
                codes += [maxv + 1] * rng.choice([1, 2, 9, 17, 40, 66])
        n += run
    nlev = rng.choice([maxv, maxv, maxv, maxv + 2]) if maxv <= 300 else rng.choice([300, 20])
    if maxv > 300:
        lim = nlev
        codes = [v if v > maxv else v % (lim + 1) for v in codes]
    if not valid:
        k = rng.randrange(5)
        if k == 0:
            n += rng.choice([-1, 1, 2, -2, 7])
        elif k == 1 and base > 0:
            codes.insert(0, maxv + 1 + rng.randrange(base))
        elif k == 2:
            nlev = max(0, nlev - rng.randrange(1, 4))
        elif k == 3:
            codes = codes[:-1]
        else:
            codes.append(rng.randrange(top + 1))
        n = max(n, 0)
    levels = [rng.choice([0, 1, 65535, rng.randrange(65536)]) for _ in range(nlev)]
    d = rng.choice([0, 0, 1, 2, -1, -2, 3, rng.randrange(-12, 13)])
    s5 = s5_head(n, 200) + bytes([nbit]) + gb.u(maxv, 2) + gb.u(nlev, 2) + gb.s(d, 1) + b"".join(gb.u(x, 2) for x in levels)
    npts, bm, ind = n, b"", 255
    if rng.random() < .15:
        b = [1] * n + [0] * rng.randrange(0, 9)
        rng.shuffle(b)
        npts, bm, ind = len(b), gb.pack(b, 1), 0
    return Field(npts, s5, gb.pack(codes, nbit), ind, bm, label=f"nbit {nbit} maxv {maxv} levels {nlev} codes {codes}")


# --- PNG --------------------------------------------------------------------

def chunk(t, d):
    return gb.u(len(d), 4) + t + d + gb.u(zlib.crc32(t + d), 4)


def paeth(a, b, c):
    p = a + b - c
    pa, pb, pc = abs(p - a), abs(p - b), abs(p - c)
    return a if pa <= pb and pa <= pc else b if pb <= pc else c


def filt(rng, rows, bpp, mode):
    out, prev = b"", bytes(len(rows[0])) if rows else b""
    for r in rows:
        f = rng.randrange(5) if mode is None else mode
        line = bytearray()
        for i, x in enumerate(r):
            a = r[i - bpp] if i >= bpp else 0
            b = prev[i]
            cc = prev[i - bpp] if i >= bpp else 0
            line.append((x - [0, a, b, (a + b) // 2, paeth(a, b, cc)][f]) & 255)
        out += bytes([f]) + bytes(line)
        prev = r
    return out


CHANNELS = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}


def png(rng, w, h, depth, samples, color=0, interlace=0, mode=None, idats=1, level=6):
    """an image of the channels of its pixels; its octets"""
    k = CHANNELS[color]
    def rows(xs, ys):
        return [gb.pack([v for x in xs for v in samples[(y * w + x) * k:(y * w + x + 1) * k]], depth) for y in ys]
    bpp = max(1, depth * k // 8)
    if interlace:
        raw = b""
        for x0, dx, y0, dy in [(0, 8, 0, 8), (4, 8, 0, 8), (0, 4, 4, 8), (2, 4, 0, 4), (0, 2, 2, 4), (1, 2, 0, 2), (0, 1, 1, 2)]:
            xs, ys = range(x0, w, dx), range(y0, h, dy)
            if len(xs) and len(ys):
                raw += filt(rng, rows(xs, ys), bpp, mode)
    else:
        raw = filt(rng, rows(range(w), range(h)), bpp, mode)
    z = zlib.compress(raw, level)
    cut = sorted(rng.randrange(len(z) + 1) for _ in range(idats - 1))
    parts = [z[a:b] for a, b in zip([0] + cut, cut + [len(z)])]
    return (b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", gb.u(w, 4) + gb.u(h, 4) + bytes([depth, color, 0, 0, interlace]))
            + (chunk(b"PLTE", rng.randbytes(3 << depth)) if color == 3 else b"")
            + b"".join(chunk(b"IDAT", p) for p in parts) + chunk(b"IEND", b""))


def png_field(rng, depth=None, w=None, h=None, bitmap=None, nbit=None, color=0):
    depth = depth or rng.choice([1, 2, 4, 8, 16])
    w = w or rng.choice([1, 2, 3, 5, 7, 8, 9, rng.randrange(1, 20)])
    h = h or rng.choice([1, 2, 3, 4, rng.randrange(1, 9)])
    ch = rnd_codes(rng, w * h * CHANNELS[color], depth)
    inter = int(rng.random() < .15)
    data = png(rng, w, h, depth, ch, color=color, interlace=inter, mode=rng.choice([None, 0, 1, 2, 3, 4]), idats=rng.choice([1, 1, 2, 4]), level=rng.choice([0, 6]))
    n = w * h
    npts, bm, ind = n, b"", 255
    if rng.random() < .25 if bitmap is None else bitmap:
        b = [1] * n + [0] * rng.randrange(0, 12)
        rng.shuffle(b)
        npts, bm, ind = len(b), gb.pack(b, 1), 0
    img = {"ct": color, "depth": depth, "ch": [str(x) for x in ch]}
    return Field(npts, s5_head(n, 41) + simple_params(rng, nbit if nbit is not None else depth * CHANNELS[color]), data, ind, bm, img,
                 label=f"png {w}x{h} colour type {color} depth {depth} interlace {inter}")


def j2k_cases(rng, n):
    out = []
    for _ in range(n):
        w, h = rng.choice([1, 2, 3, 5, 8, 9, 17, rng.randrange(1, 40)]), rng.choice([1, 2, 3, 7, 8, rng.randrange(1, 20)])
        prec = rng.choice([1, 2, 4, 7, 8, 9, 11, 12, 15, 16, 16, 20, 24])
        vals = rnd_codes(rng, w * h, prec)
        if rng.random() < .5:  # smooth
            vals = [min((1 << prec) - 1, (x * 3 + y * 5) * (1 << prec) // (3 * w + 5 * h + 1)) for y in range(h) for x in range(w)]
        kw = {}
        if rng.random() < .2:  # an image placed elsewhere than at the origin
            kw.update(x0=rng.randrange(6), y0=rng.randrange(6))
        if rng.random() < .2 and prec > 1:
            kw.update(sgnd=1)
            vals = [v - (1 << (prec - 1)) for v in vals]
        out.append(dict(op="j2kenc", w=w, h=h, prec=prec, vals=vals, **kw))
    return out


# --- fields packed by the specification ---------------------------------------

def fbits(v):
    return struct.unpack(">I", struct.pack(">f", v))[0]


def replay(c, cfg, cap, workers=None):
    """Every field MCPacking packs, decoded by the real code; items, counts and announcements must be the points'."""
    r = core.tlc("MCPacking", cfg, workers=workers or core.JOBS, mem="10g")
    em = r.emitted
    c.note(f"packed_by_{cfg}", len(em))
    pick = em if len(em) <= cap else c.rng.sample(em, cap)
    fields = [Field(e["npts"], e["s5"], e["s7"], e["ind"], e["bm"]) for e in pick]
    outs = core.run_driver([f.case() for f in fields])
    c.count(len(pick))
    c.sample(pick[len(pick) // 2], cap=3)
    for e, f, o in zip(pick, fields, outs):
        want = [fbits(float(p[0])) if p else -1 for p in e["pts"]]
        s = o.get("subs", [{}])[0]
        n = len(want)
        if (s.get("vals") != want or s.get("n") != n or s.get("after") or s["res"]["k"] != "ok"
                or any(h[1] != n - h[0] or h[2] != n - h[0] for h in s["hints"])):
            c.violation(f"points {e['pts']} packed as section 5 {f.s5.hex()} bitmap {f.bm.hex()} section 7 {f.s7.hex()}: observed {str(s)[:300]}",
                        {"case": f.case(), "specified": e["pts"], "observed": o})
    return r
