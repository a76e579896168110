"""C17: Gaussian latitudes."""
from checks import gridlib as g
from lib import core

MODES = [16 * x for x in range(16)]


def words(x):
    return [str(w) for w in x] if x and x[0] >= 0 else (["-1"] if x else [])


def run(c):
    rng = c.rng
    core.tlc("MCGrid", "MCGrid", mem="3g")  # holds Rat's Legendre polynomials and sines against their definitions
    ns = list(range(1, c.n(97, 321))) + [128, 160, 181, 200, 255, 256, 320] + c.n([512, 640, 1280], [400, 480, 511, 512, 513, 640, 768, 800, 1000, 1024, 1279, 1280])
    ns += [rng.randrange(97, c.n(500, 1281)) for _ in range(c.n(8, 40))]
    ns = sorted(set(ns), reverse=True)
    outs = core.run_driver([dict(op="gaussian", n=n) for n in ns])
    c.count(len(ns))
    recs = [dict(t="gauss", n=n, res={"k": o["res"]["k"]}, lats=[words(x) for x in o.get("lats", [])]) for n, o in zip(ns, outs)]
    for n in ns:
        c.seen(n)
    for i, e in core.validate("TraceGrid", recs):
        c.violation(f"Gaussian latitudes of {ns[i]}: not the roots: {str(outs[i])[:300]}", {"n": ns[i], "observed": outs[i]})
    # whether n latitudes are found at all, for every n up to 1280 (which of them are right is judged above)
    some = list(range(1, 1281)) if c.thorough else [n for n in range(1, 1281) if n % 16 == c.rng.randrange(16)]
    outs = core.run_driver([dict(op="gaussian", n=n) for n in some])
    for n, o in zip(some, outs):
        if o["res"]["k"] != "ok" or len(o["lats"]) != n or any(len(x) != 2 for x in o["lats"]):
            c.violation(f"Gaussian latitudes of {n}: not {n} numbers", {"n": n, "observed": o})
    c.note("sizes_judged", len(ns))
    # as coordinates
    defs = []
    for _ in range(c.n(260, 2500)):
        from checks.c16 import grid
        nj = rng.choice([1, 2, 3, 4, 5, 6, 8, 16, 31, 32, 33, rng.randrange(1, 50)])
        d = grid(rng, ni=rng.choice([1, 2, 3, 4, 5, 7, rng.randrange(1, 12)]), nj=nj, tmpl=40, honest=rng.random() < .93,
                 di=rng.randrange(1 << 32) if rng.random() < .2 else 1000000, dj=rng.choice([nj // 2, nj, 0, 32]))
        defs.append(d)
    for m in MODES:
        for nj in (2, 3, 8):
            la = (-60000000, 60000000) if m & 64 else (60000000, -60000000)
            defs.append(g.latlon(3, nj, scan=m, tmpl=40, lat1=la[0], lat2=la[1], lon1=0 if not m & 128 else 240000000, lon2=240000000 if not m & 128 else 0, dj=nj // 2))
    defs += [g.latlon(2, n, tmpl=40, scan=m, lat1=1000000, lat2=-1000000, lon2=180000000) for n, m in c.n([(160, 0), (320, 32)], [(160, 0), (320, 32), (640, 16), (1280, 0)])]
    defs += [g.latlon(i, j, tmpl=40) for i, j in [(0, 0), (0, 4), (3, 0)]]
    g.check(c, defs, ["latlons"], "Gaussian coordinates", [{"cap": 4000, "clone": rng.randrange(12)} for _ in defs])
    # grids of many points, judged at some of them
    from checks.c16 import grid
    sizes = [(65537, 4), (2, 640), (1280, 640), (640, 320), (513, 256), (30000, 3), (320, 160), (7, 1280)]
    defs = [grid(rng, ni=ni, nj=nj, mode=m, tmpl=40) for m in MODES for ni, nj in (sizes if c.thorough else rng.sample(sizes, 1))]
    defs += [grid(rng, ni=rng.randrange(1, 4), nj=rng.choice([rng.randrange(97, 640), rng.randrange(513, 900) | 1, rng.randrange(900, 1281)]), mode=rng.choice(MODES), tmpl=40)
             for _ in range(c.n(5, 60))]
    g.check_long(c, defs + g.sample_defs((40,)), ["latlons"], "Gaussian coordinates", npos=c.n(6, 24))
    c.sample({"n": 8, "lats": [str(x) for x in core.run_driver([dict(op="gaussian", n=8)])[0]["lats"]]})


run.meta = dict(rule="for each n: n latitudes strictly from north to south, antisymmetric, the Legendre polynomial of degree n changing sign within 1e-11 rad of "
                     "each sine (evaluated with 40 digits); Gaussian grids in every mode, rows matched with the roots in the order the direction asks for",
                assumptions=["coordinates of grids are judged within 2e-7 rad (single precision)", "sizes up to 1280"])
