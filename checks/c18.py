"""C18: projected grids."""
from checks import gridlib as g
from lib import core
from lib import gribbytes as gb

MODES = [16 * x for x in range(16)]
Q = 1000000


def earth(rng):
    sh = rng.choice([0, 1, 1, 1, 2, 3, 3, 4, 5, 6, 7, 7, 8])
    f = rng.choice([0, 0, 1, 2, 3, 6, 9, 30, 127])
    val = lambda: rng.choice([6371229, 6378137, 63712290, 6371, 0, 1, 4294967295, 4294967294, rng.randrange(1 << 32)])
    return gb.earth(sh, f, val(), rng.choice([0, 1, 2, 5, 40, 127, f]), val(), rng.choice([0, 1, 3, 7, f]), val())


def grid(rng, tmpl=None, ea=None, scan=None, ni=None, nj=None, **kw):
    ang = lambda lim: rng.choice([0, 1, -1, lim, -lim, lim // 2, 35 * Q, -95 * Q % (360 * Q), rng.randrange(-lim, lim + 1)])
    t = rng.choice([20, 30]) if tmpl is None else tmpl
    return g.projected(t, rng.randrange(1, 7) if ni is None else ni, rng.randrange(1, 7) if nj is None else nj,
                       lat1=ang(90 * Q), lon1=ang(360 * Q), lad=ang(90 * Q), lov=ang(360 * Q),
                       dx=rng.choice([0, 1, 1000, 3000000, 12190580, (1 << 31) + 5, rng.randrange(1 << 32)]),
                       dy=rng.choice([0, 1, 1000, 3000000, 12190581, (1 << 32) - 1, rng.randrange(1 << 32)]),
                       centre=rng.choice([0, 128]) if "centre" not in kw else kw.pop("centre"),
                       scan=rng.choice(MODES) if scan is None else scan, latin1=ang(90 * Q), latin2=ang(90 * Q),
                       flags=rng.randrange(256), ea=earth(rng) if ea is None else ea, **kw)


def run(c):
    rng = c.rng
    defs = [grid(rng) for _ in range(c.n(500, 6000))]
    defs += [grid(rng, tmpl=t, scan=m) for t in (20, 30) for m in MODES for _ in range(c.n(3, 20))]
    defs += [grid(rng, tmpl=t, ea=gb.earth(s, 0, 6371000, 0, 6378000, 0, 6357000)) for t in (20, 30) for s in range(0, 256, 1 if c.thorough else 5)]
    defs += [grid(rng, tmpl=t, centre=x) for t in (20, 30) for x in range(0, 256, 1 if c.thorough else 4)]
    defs += [grid(rng, tmpl=20, centre=x) for x in (0, 128, 1, 32, 129, 64, 192)]
    defs += [grid(rng, npts=n) for n in range(0, 20)]
    opts = [{"cap": 4000, "clone": rng.randrange(9)} for _ in defs]
    more = [grid(rng, tmpl=t) for t in (20, 30) for _ in range(9)]
    defs += more
    opts += [{"fail": f} for f in ("new", "project", "array") for _ in range(len(more) // 3)]
    g.check(c, defs, ["latlons", "proj"], "projected grid", opts)
    c.sample({"label": defs[0].label, "payload": defs[0].p.hex()})
    # grids of many points, judged at some of them
    sizes = [(65536, 2), (2, 65536), (3, 70000), (257, 256), (935, 824), (1, 66000), (66000, 1), (4096, 17)]
    many = [grid(rng, ni=ni, nj=nj, scan=m, centre=rng.choice([0, 128])) for m in MODES for ni, nj in (sizes if c.thorough else rng.sample(sizes, 1))]
    g.check_long(c, many + g.sample_defs((20, 30)), ["latlons"], "projected grid")
    # the axes themselves
    cases = []
    for _ in range(c.n(400, 5000)):
        f = lambda: rng.choice([0, 1, 2, 3, 6, 10, 127, 128, 129, 255, rng.randrange(256), rng.randrange(20)])
        v = lambda: rng.choice([0, 1, 6371229, 63781370, 4294967295, rng.randrange(1 << 32)])
        cases.append(dict(shape=rng.choice([0, 1, 1, 2, 3, 3, 4, 5, 6, 7, 7, 8, 9, 10, 255, rng.randrange(256)]), rs=f(), rv=v(), **{"as": f(), "bs": f()}, av=v(), bv=v()))
    outs = core.run_driver([dict(op="radii", **x) for x in cases])
    c.count(len(cases))
    recs = []
    for x, o in zip(cases, outs):
        p = gb.earth(x["shape"], x["rs"], x["rv"], x["as"], x["av"], x["bs"], x["bv"])
        recs.append(dict(t="radii", p=list(p), res={"k": o["res"]["k"]}, a=[str(w) for w in o.get("a", [])], b=[str(w) for w in o.get("b", [])]))
    for i, e in core.validate("TraceGrid", recs, min_shard=50):
        c.violation(f"axes of {cases[i]}: observed {outs[i]}", {"case": cases[i], "observed": outs[i]})


run.meta = dict(rule="random Lambert and polar stereographic grids in every mode, with every shape of the earth and every projection-centre flag: the definition "
                     "handed to the projector is parsed and each parameter compared with the grid definition's exact value; the coordinates are compared point by "
                     "point with what the stand-in projector (a linear map) makes of the first point and the signed steps; failing projectors",
                assumptions=["the PROJ library is replaced by a linear stand-in with the same interface, since it is not installed here",
                             "scale factors with the top bit set are not judged (whether they are signed is disputed)",
                             "bipolar projections are not judged"])
