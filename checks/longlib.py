"""Long fields, and the fields of the sample files of the repository, held against Long."""
import glob, gzip, lzma, os, struct, zlib
from checks import declib as d
from lib import core
from lib import gribbytes as gb


def pack(vals, n):
    return bits([(v, n) for v in vals])


def bits(items):
    s = "".join(format(v, f"0{n}b") for v, n in items if n)
    s += "0" * (-len(s) % 8)
    return int(s, 2).to_bytes(len(s) // 8, "big") if s else b""


def codes(rng, n, nbit):
    return [rng.getrandbits(nbit) for _ in range(n)] if nbit else [0] * n


def bitmap(rng, n):
    """a bitmap with n present points"""
    b = [1] * n + [0] * rng.randrange(1, n + 2)
    rng.shuffle(b)
    return len(b), pack(b, 1), 0


def params(rng, nbit):
    return struct.pack(">f", rng.choice([0.0, -12.5, 271.25])) + gb.s(rng.choice([0, -3, 2]), 2) + gb.s(rng.choice([0, 1, -1]), 2) + bytes([nbit, 0])


def simple(rng, n, nbit, bm=False):
    npts, b, ind = bitmap(rng, n) if bm else (n, b"", 255)
    return d.Field(npts, d.s5_head(n, 0) + params(rng, nbit), pack(codes(rng, n, nbit), nbit), ind, b, label=f"long simple {n} of {nbit} bits")


def sparse(rng, npts, have, nbit=12):
    """a grid of exactly npts points with values at a few of them"""
    at = set(rng.sample(range(npts), have)) | {npts - 1}
    b = [int(k in at) for k in range(npts)]
    n = len(at)
    return d.Field(npts, d.s5_head(n, 0) + params(rng, nbit), pack(codes(rng, n, nbit), nbit), 0, pack(b, 1), label=f"{n} values at {npts} points")


def complex_(rng, order, mgmt, lens, nbit=11, wbits=3, octs=3, bm=False):
    ng = len(lens)
    lref = min(lens[:-1], default=0)
    lbits = max([x - lref for x in lens[:-1]], default=0).bit_length()
    widths = codes(rng, ng, wbits)
    n = sum(lens)
    items = []
    for w, k in zip(widths, lens):
        items += [(rng.getrandbits(w), w) for _ in range(k)] if w else []
    lim = 200 if order else 0
    extra = b"".join(gb.s(rng.randrange(-lim, lim + 1), octs) for _ in range(order + 1)) if order else b""
    s7 = extra + pack(codes(rng, ng, nbit), nbit) + pack(widths, wbits) + pack([x - lref for x in lens[:-1]] + [0], lbits) + bits(items)
    npts, b, ind = bitmap(rng, n) if bm else (n, b"", 255)
    s5 = d.s5_head(n, 3 if order else 2) + params(rng, nbit) + bytes([1, mgmt]) + bytes(8) + gb.u(ng, 4) + bytes([0, wbits]) + gb.u(lref, 4) + b"\1" + gb.u(lens[-1], 4) + bytes([lbits])
    if order:
        s5 += bytes([order, octs])
    return d.Field(npts, s5, s7, ind, b, label=f"long complex order {order} missing {mgmt}, {ng} groups, {n} values")


def runlength(rng, n, nbit, maxv, longest):
    top = (1 << nbit) - 1
    base = top - maxv
    cs, k = [], 0
    while k < n:
        run = min(n - k, max(1, int(longest * rng.random() ** 3)))
        cs.append(rng.randrange(maxv + 1))
        x = run - 1
        while x:
            cs.append(maxv + 1 + x % base)
            x //= base
        k += run
    s5 = d.s5_head(n, 200) + bytes([nbit]) + gb.u(maxv, 2) + gb.u(maxv, 2) + gb.s(1, 1) + b"".join(gb.u(rng.randrange(65536), 2) for _ in range(maxv))
    return d.Field(n, s5, pack(cs, nbit), label=f"long runs {n} points, {len(cs)} codes")


def png(rng, w, h, depth, bm=False):
    xs = codes(rng, w * h, depth)
    rows = [pack(xs[y * w:(y + 1) * w], depth) for y in range(h)]
    raw = b"".join(b"\0" + r for r in rows)
    data = (b"\x89PNG\r\n\x1a\n" + d.chunk(b"IHDR", gb.u(w, 4) + gb.u(h, 4) + bytes([depth, 0, 0, 0, 0])) + d.chunk(b"IDAT", zlib.compress(raw, 1)) + d.chunk(b"IEND", b""))
    npts, b, ind = bitmap(rng, w * h) if bm else (w * h, b"", 255)
    return d.Field(npts, d.s5_head(w * h, 41) + params(rng, depth), data, ind, b, {"k": "ok", "xs": [str(x) for x in xs]}, label=f"long png {w}x{h} of {depth} bits")


def j2k(rng, w, h, prec):
    xs = [((x * 3 + y * 5) * 37 + rng.randrange(4)) % (1 << prec) for y in range(h) for x in range(w)]
    o = core.encode([dict(op="j2kenc", w=w, h=h, prec=prec, vals=xs)])[0]
    n = w * h
    return d.Field(n, d.s5_head(n, 40) + params(rng, prec), bytes.fromhex(o["j2k"]), 255, b"", {"k": "ok", "xs": [str(x) for x in xs]}, label=f"long jpeg 2000 {w}x{h} of {prec} bits")


# --- the repository's sample files ---------------------------------------------

def samples():
    """name -> octets"""
    out = {}
    for p in sorted(glob.glob(os.path.join(core.REPO, "testdata", "*"))):
        if os.path.isdir(p) or p.endswith(".md"):
            continue
        o = lzma.open if p.endswith(".xz") else gzip.open if p.endswith(".gz") else open
        with o(p, "rb") as f:
            out[os.path.basename(p)] = f.read()
    return out


def walk(data):
    """the sections of well-formed data: (number, payload) per message"""
    k, out = data.find(b"GRIB"), []
    while k >= 0:
        total, q, ss = int.from_bytes(data[k + 8:k + 16], "big"), k + 16, []
        while data[q:q + 4] != b"7777":
            z = int.from_bytes(data[q:q + 4], "big")
            ss.append((data[q + 4], data[q + 5:q + z]))
            q += z
        out.append(ss)
        k = data.find(b"GRIB", k + total)
    return out


def sample_grids():
    """(name, payload) of their different grid definition sections"""
    out = {}
    for name, data in samples().items():
        for ss in walk(data):
            for num, p in ss:
                if num == 3:
                    out.setdefault(p, name)
    return [(n, p) for p, n in out.items()]


def sample_fields(want):
    out = []
    for name, data in samples().items():
        for m, ss in enumerate(walk(data)):
            cur = {}
            for num, p in ss:
                cur[num] = p
                if num == 7 and int.from_bytes(cur[5][4:6], "big") in want and cur[6][0] in (0, 255):
                    out.append(d.Field(int.from_bytes(cur[3][1:5], "big"), cur[5], cur[7], cur[6][0], cur[6][1:], label=f"{name} message {m}"))
    return out


def some(c, fields, quick):
    """a few of them in the quick tier"""
    return fields if c.thorough or len(fields) <= quick else c.rng.sample(fields, quick)


def check(c, fields, first=None, what="long field"):
    """first: number of leading items compared (all if None)"""
    recs, outs = [], []
    for a in range(0, len(fields), 4):
        part = fields[a:a + 4]
        for f, o in zip(part, core.run_driver([dict(op="decode", data=f.file().hex(), sub=0, limit=first or 3_000_000, hints=1009, cap=f.npts + 100) for f in part], timeout=120, jobs=4)):
            r = f.record(o)
            r["whole"] = first is None
            r["at"] = []
            recs.append(r)
            outs.append({k: str(v)[:300] for k, v in o.items()})
    judge(c, fields, recs, outs, what)


def huge(c, fields, what="field of many points"):
    """Fields of millions of points in few octets, judged at some of them: around the ends of groups and runs, and anywhere."""
    recs, outs = [], []
    for f in fields:
        n = f.npts
        at = {0, 1, 65535, 65536, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, n - 1, n - 2, n // 2} | {c.rng.randrange(n) for _ in range(20)}
        for e in f.ends:
            at |= {e - 2, e - 1, e, e + 1}
        f.at = sorted(x for x in at if 0 <= x < n)
    for f, o in zip(fields, core.run_driver([dict(op="decode", data=f.file().hex(), sub=0, at=f.at, hints=1000003, cap=f.npts + 100) for f in fields], timeout=300, jobs=4)):
        r = f.record(o)
        r["whole"] = False
        r["at"] = f.at
        recs.append(r)
        outs.append({k: str(v)[:300] for k, v in o.items()})
    judge(c, fields, recs, outs, what)


def huge_constant(rng, n):
    f = d.Field(n, d.s5_head(n, 0) + params(rng, 0), b"", label=f"constant, {n} points")
    f.ends = []
    return f


def huge_groups(rng, lens, mgmt, nbit=12):
    """groups of one value each, the first some packed ones"""
    ng = len(lens)
    wt = [rng.choice([0, 0, 3]) if x < 4000 else 0 for x in lens]
    refs = [rng.choice([(1 << nbit) - 1, (1 << nbit) - 2, rng.getrandbits(nbit)]) for _ in lens]
    n = sum(lens)
    items = [(rng.getrandbits(w), w) for w, k in zip(wt, lens) if w for _ in range(k)]
    lbits = max(lens[:-1], default=1).bit_length()
    s7 = pack(refs, nbit) + pack(wt, 2) + pack(lens[:-1] + [0], lbits) + bits(items)
    s5 = d.s5_head(n, 2) + params(rng, nbit) + bytes([1, mgmt]) + bytes(8) + gb.u(ng, 4) + bytes([0, 2]) + gb.u(0, 4) + b"\1" + gb.u(lens[-1], 4) + bytes([lbits])
    f = d.Field(n, s5, s7, label=f"groups of {lens} points, missing {mgmt}")
    f.ends = [sum(lens[:k]) for k in range(1, ng + 1)]
    return f


def huge_runs(rng, runs, nbit, maxv):
    top = (1 << nbit) - 1
    base = top - maxv
    cs = []
    for k in runs:
        cs.append(rng.randrange(maxv + 1))
        x = k - 1
        while x:
            cs.append(maxv + 1 + x % base)
            x //= base
    n = sum(runs)
    s5 = d.s5_head(n, 200) + bytes([nbit]) + gb.u(maxv, 2) + gb.u(maxv, 2) + gb.s(1, 1) + b"".join(gb.u(rng.randrange(65536), 2) for _ in range(maxv))
    f = d.Field(n, s5, pack(cs, nbit), label=f"runs of {runs} points")
    f.ends = [sum(runs[:k]) for k in range(1, len(runs) + 1)]
    return f


def judge(c, fields, recs, outs, what):
    c.count(len(fields))
    for f in fields:
        c.seen([f.s5.hex(), f.npts, f.label])
    for i, e in core.validate("TraceLong", recs, timeout=850, mem="4g"):
        f, v = fields[i], recs[i]["vals"]
        c.violation(f"{what} {f.label}: {f.npts} points, section 5 {f.s5.hex()[:120]}: item {e['at']} specified {e['want']} observed "
                    f"{recs[i]['res']} {recs[i]['n']} items {d.floats(v[max(0, e['at'] - 3):e['at'] + 2]) if e['at'] else ''}",
                    {"label": f.label, "s5": f.s5.hex(), "npts": f.npts, "at": e["at"], "specified": e["want"], "observed": outs[i]})
