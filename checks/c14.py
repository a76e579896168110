"""C14: unsupported features are refused, supported ones are not."""
from checks import declib as d
from checks import gridlib as g
from checks import c16, c18
from lib import core
from lib import gribbytes as gb


def setoct(f, o, v, label):
    s5 = bytearray(f.s5)
    s5[o] = v
    return d.Field(f.npts, s5, f.s7, f.ind, f.bm, f.img, label=label)


def samples(rng):
    """one valid field of every packing"""
    fs = {"simple": d.simple(rng, nbit=rng.choice([8, 11, 16]), npts=9, bitmap=False, extra=False),
          "constant": d.simple(rng, nbit=0, npts=6, bitmap=False, extra=False),
          "complex": d.complex_(rng, diff=0, bitmap=False, maxw=8), "diff1": d.complex_(rng, diff=1, bitmap=False, maxw=8),
          "diff2": d.complex_(rng, diff=2, bitmap=False, maxw=8), "rle": d.runlength(rng, nbit=8),
          "png": d.png_field(rng, depth=8, bitmap=False)}
    vals = [rng.randrange(256) for _ in range(12)]
    o = core.encode([dict(op="j2kenc", w=4, h=3, prec=8, vals=vals)])[0]
    fs["jpeg"] = d.Field(12, d.s5_head(12, 40) + d.simple_params(rng, 8, wild=False), bytes.fromhex(o["j2k"]), img={"k": "ok", "xs": [str(v) for v in vals]}, label="jpeg")
    return fs


def run(c):
    rng = c.rng
    fs = []
    for rep in range(c.n(1, 6)):
        base = samples(rng)
        every = range(256)
        for name, f in base.items():
            fs.append(f)
            # bitmap indicators; the field's own number of points when a bitmap is present
            for v in every:
                fs.append(d.Field(f.npts, f.s5, f.s7, v, b"\xff" * ((f.npts + 7) // 8), f.img, label=f"{name} bitmap indicator {v}"))
            if name != "rle":
                fs += [setoct(f, 15, v, f"{name} type of original values {v}") for v in every]
            if name in ("complex", "diff1", "diff2"):
                fs += [setoct(f, 16, v, f"{name} splitting {v}") for v in every]
                fs += [setoct(f, 17, v, f"{name} missing management {v}") for v in every]
            if name.startswith("diff"):
                fs += [setoct(f, 42, v, f"{name} order {v}") for v in every]
                fs += [setoct(f, 43, v, f"{name} octets {v}") for v in every]
        # supported combinations
        for diff in (0, 1, 2):
            for mgmt in (0, 1, 2):
                for octets in ((1, 2, 3, 4) if diff else (None,)):
                    for bm in (False, True):
                        fs.append(d.complex_(rng, diff=diff, mgmt=mgmt, octets=octets, bitmap=bm))
        fs += [d.simple(rng, nbit=n, bitmap=b) for n in range(33) for b in (False, True)]
        fs += [d.png_field(rng, depth=n, bitmap=b) for n in (1, 2, 4, 8, 16) for b in (False, True)]
        fs += [d.runlength(rng, nbit=n) for n in range(1, 17)]
    # representation templates
    known = [0, 1, 2, 3, 4, 5, 40, 41, 42, 43, 50, 51, 53, 61, 200, 201, 254, 255, 256, 257, 258, 259, 1000, 40000, 40001, 40010, 50000, 50001, 50002, 65535,
             65536 - 40, 256 * 40, 256 * 41, 256 * 200, 256 * 2, 256 * 3]
    f = samples(rng)
    for t in (range(65536) if c.thorough else sorted(set(known + list(range(0, 260)) + [rng.randrange(65536) for _ in range(300)]))):
        for name in ([{0: "simple", 2: "complex", 3: "diff1", 40: "jpeg", 41: "png", 200: "rle"}[t]] if t in (0, 2, 3, 40, 41, 200)
                     else ["simple", "png", "diff2"] if t in known else ["simple"]):
            x = f[name]
            fs.append(d.Field(x.npts, x.s5[:4] + gb.u(t, 2) + x.s5[6:], x.s7, x.ind, x.bm, x.img, label=f"template {t} on {name}"))
    d.check(c, fs, "feature", hints=6)
    # grids
    defs = []
    body = gb.g_latlon(3, 2, lat1=10000000, lon2=20000000)
    tm = [0, 1, 2, 3, 4, 5, 10, 12, 13, 20, 21, 22, 23, 30, 31, 33, 40, 41, 42, 43, 50, 61, 90, 100, 101, 110, 120, 140, 150, 204, 1000, 1100, 1200, 32768, 65535,
          0x1400, 0x1e00, 0x2800, 256]
    for t in (range(0, 65536, 7) if c.thorough else tm + [rng.randrange(65536) for _ in range(60)]) :
        for b in ([body] if t in (0, 40) else [body, body + bytes(30), gb.earth() + gb.u(3, 4) + gb.u(2, 4) + bytes(60)]):
            defs.append(g.Def(g.payload(t, b, 6), f"grid template {t}"))
    defs += [g.Def(g.payload(t, body, 6, nlist=n, lst=lst), f"list of {len(lst)} octets") for t in (0, 40) for n, lst in
             [(1, b"\3\3"), (2, b"\0\3\0\3"), (4, bytes(8)), (0, b"\3\3"), (1, b"\3")]]
    for m in range(256):
        defs.append(g.latlon(3, 2, scan=m, lat1=0, lat2=0))
        defs.append(g.latlon(2, 2, scan=m, lat1=0, lat2=0, tmpl=40))
        defs += [g.projected(t, 2, 2, scan=m) for t in (20, 30)]
    defs += [g.projected(t, 2, 2, ea=gb.earth(s, 0, 6371000, 0, 6378000, 0, 6357000)) for t in (20, 30) for s in range(256)]
    defs += [g.latlon(2, 2, ea=gb.earth(s), tmpl=t) for t in (0, 40) for s in range(0, 256, 5)]
    defs += [c16.grid(rng) for _ in range(c.n(60, 800))] + [c18.grid(rng) for _ in range(c.n(100, 1500))]
    g.check(c, defs, ["refusal"], "grid feature", [{"cap": 50} for _ in defs])
    g.check_long(c, g.sample_defs(range(65536)), ["ij", "latlons"], "sample grid", npos=2)
    c.sample({"label": defs[1].label, "payload": defs[1].p.hex()})


run.meta = dict(rule="every value of every octet that selects a feature (bitmap indicator, type of original values, splitting, missing-value management, differencing "
                     "order, extra descriptor octets, scanning mode, shape of the earth) on a valid field of every packing; representation and grid templates "
                     "(thorough: all representation templates); all supported combinations; verdict and values from TraceDecode and TraceGrid",
                assumptions=["bipolar projections, and lists of points on projected grids, are not judged"])
