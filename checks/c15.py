"""C15: scanning order."""
from checks import gridlib as g
from lib import core

MODES = [16 * x for x in range(16)]


def lopsided(rng):
    """Walks of shapes whose numbers of points do not fit 32 bits, and their like."""
    big = [(1 << 32) - 1, 1 << 31, 65536, 3, 1, 0, 100000]
    return [dict(ni=i, nj=j, mode=m, cap=200, clone_at=rng.randrange(200)) for i in big for j in big for m in MODES[:4] + [rng.choice(MODES[4:])]
            if i > 60000 or j > 60000]


def wrapped():
    """Products that only fit modulo 2^32."""
    defs = []
    for ni, nj, n in [(65536, 65536, 0), (1 << 31, 2, 0), (65537, 65537, 131073), (1 << 31, 3, 1 << 31), ((1 << 32) - 1, (1 << 32) - 1, 1)]:
        for t in (0, 20, 30, 40):
            defs.append(g.latlon(ni, nj, npts=n, tmpl=t) if t in (0, 40) else g.projected(t, ni, nj, npts=n))
    return defs


def run(c):
    if c.thorough:
        # for sequences of any length
        c.note("obligations_proved_by_tlapm", core.tlapm("ScanProof"))
    rng = c.rng
    # every walk of the model, replayed on iterators and on files of all templates
    r = core.tlc("MCGrid", "MCGridDeep" if c.thorough else "MCGrid", workers=core.JOBS, mem="6g")
    em = r.emitted
    c.note("walks", len(em))
    c.sample(em[len(em) // 2], cap=1)
    outs = core.run_driver([dict(op="ij", ni=e["ni"], nj=e["nj"], mode=e["m"], clone_at=len(e["walk"]) // 2) for e in em])
    c.count(len(em))
    for e, o in zip(em, outs):
        n = len(e["walk"])
        want = dict(res={"k": "ok"}, ij=e["walk"], hints=[[n - k, n - k] for k in range(n + 1)], tail=e["walk"][n // 2:], fused=True)
        if o != want:
            c.violation(f"{e['ni']} by {e['nj']} grid, scanning mode {e['m']}: specified {e['walk'][:20]} observed {str(o)[:400]}",
                        {"case": e, "observed": o})
    shapes = sorted({(e["ni"], e["nj"]) for e in em})
    defs = [g.latlon(i, j, scan=m, tmpl=t) if t in (0, 40) else g.projected(t, i, j, scan=m)
            for i, j in shapes for m in MODES for t in ((0, 20, 30, 40) if i * j < 7 or c.thorough else [rng.choice([0, 20, 30, 40])])]
    g.check(c, defs, ["ij"], "walk", [{"clone": rng.randrange(8)} for _ in defs])
    # larger shapes, lopsided ones, all modes; every mode octet
    cases = []
    for _ in range(c.n(250, 3000)):
        ni, nj = rng.choice([1, 2, 3, 7, 16, 255, 256, 257, rng.randrange(1, 70)]), rng.choice([1, 2, 3, 5, 8, rng.randrange(1, 40)])
        if rng.random() < .5:
            ni, nj = nj, ni
        cases.append(dict(ni=ni, nj=nj, mode=rng.choice(MODES), cap=c.n(700, 3000), clone_at=rng.randrange(ni * nj + 2)))
    cases += [dict(ni=3, nj=2, mode=m, cap=100, clone_at=m % 7) for m in range(256)]
    cases += lopsided(rng)
    g.check_ij(c, cases, "walk")
    # numbers of points that do and do not fit
    defs = []
    for _ in range(c.n(200, 2000)):
        ni, nj = rng.randrange(0, 9), rng.randrange(0, 9)
        n = rng.choice([ni * nj, ni * nj, ni * nj + 1, max(ni * nj - 1, 0), ni + nj, 0, rng.randrange(60)])
        t = rng.choice([0, 20, 30, 40])
        m = rng.choice(MODES)
        defs.append(g.latlon(ni, nj, npts=n, scan=m, tmpl=t) if t in (0, 40) else g.projected(t, ni, nj, npts=n, scan=m))
    defs += wrapped()
    g.check(c, defs, ["ij"], "number of points", [{"cap": 100} for _ in defs])
    # grids of many points, judged at some of them
    sizes = [(65536, 2), (2, 65536), (65537, 3), (3, 70000), (257, 256), (300, 300), (1, 66000), (66000, 1), (4096, 17), (130, 1000)]
    defs = []
    for m in MODES:
        for ni, nj in (sizes if c.thorough else rng.sample(sizes, 3)):
            t = rng.choice([0, 20, 30, 40])
            defs.append(g.latlon(ni, nj, scan=m, tmpl=t) if t in (0, 40) else g.projected(t, ni, nj, scan=m))
    defs += [g.latlon(70001, 61, scan=rng.choice(MODES)), g.latlon(61, 70001, scan=rng.choice(MODES))]
    g.check_long(c, defs + g.sample_defs((0, 20, 30, 40, 101)), ["ij"], "walk")
    # the flags by themselves
    outs = core.run_driver([dict(op="flags", m=m) for m in range(256)])
    c.count(256)
    for i, e in core.validate("TraceGrid", [dict(t="flags", m=m, **o) for m, o in enumerate(outs)], min_shard=256):
        c.violation(f"flags of {i}: observed {outs[i]}", {"m": i, "observed": outs[i]})


run.meta = dict(rule="all walks of MCGrid (every shape up to its bounds in all 16 modes) replayed on the real iterators, alone and through files of the four "
                     "grid templates; larger, lopsided and huge shapes and all mode octets validated against the closed form by TraceGrid",
                assumptions=["grids of more than a few thousand points are followed only at their first points, or at some positions (row ends, powers of two, random ones)"])
