"""C27: the same library, however it is built."""
import importlib
import time
from checks import c03, c12, c13, c15, c16, c18, c25, c26
from checks import declib as d
from checks import filelib as fl
from checks import gridlib as g
from checks import metalib as m
from lib import core
from lib import gribbytes as gb

GENS = [d.simple, d.complex_, d.runlength, d.png_field]
LOOK = ["shape", "ij", "latlons", "proj"]
MODES = [16 * x for x in range(16)]


def reading(c, n):
    rng = c.rng
    cases = []
    for i in range(n):
        f, spans = fl.rnd_file(rng, big=i % 8 == 0, hi=60)
        if i & 1:
            f = c03.damage(rng, f, spans)
        k = rng.choice(["sections", "subs", "open", "slice"])
        x = dict(kind="open" if k == "slice" else k, data=f, start=0, opt=dict(slice=True) if k == "slice" else {})
        if k != "slice" and rng.random() < .3:
            x["opt"] = dict(sched=rng.choice([[1], [0, 1], [3, 0, 5]]))
        cases.append(x)
    # sizes that do not fit the numbers of a 32-bit target
    ws = c03.wide()
    cases += [dict(kind=k, data=f, start=0) for f in rng.sample(ws, min(n, len(ws))) for k in ("sections", "subs", "open")]
    return fl.check(c, cases, c.build + " build: reading")[0]


def decoding(c, n):
    rng = c.rng
    fs = [rng.choice(GENS)(rng) for _ in range(n)]
    fs += [d.simple(rng, nbit=b, bitmap=x) for b in range(33) for x in (False, True)]
    fs += [d.complex_(rng, diff=x, mgmt=y, octets=z) for x in (0, 1, 2) for y in (0, 1, 2) for z in ((1, 2, 3, 4) if x else (None,))]
    fs += c12.j2k_fields(c, n // 4)
    fs += [c13.damaged(rng, rng.choice([1, 1, 2])) for _ in range(n)] + [c13.wild(rng) for _ in range(n)] + c13.extremes(rng)
    d.check(c, fs, c.build + " build: values")


def grids(c, n):
    rng = c.rng
    defs = [c16.grid(rng, honest=rng.random() < .8) for _ in range(n)] + [c16.grid(rng, tmpl=40, nj=rng.randrange(1, 40)) for _ in range(n // 3)]
    # every mode of the projected grids, every shape of the earth and projection centre, other templates
    defs += [c18.grid(rng) for _ in range(n)] + [c18.grid(rng, tmpl=t, scan=x) for t in (20, 30) for x in MODES]
    defs += [g.projected(t, 2, 3, scan=x) for t in (20, 30) for x in range(0, 256, 5)]
    defs += [g.projected(t, 3, 2, ea=gb.earth(s, 0, 6371000, 0, 6378000, 0, 6357000)) for t in (20, 30) for s in range(12)]
    defs += [g.projected(t, 3, 2, centre=x) for t in (20, 30) for x in (0, 1, 64, 128, 192)]
    defs += [g.projected(t, i, j) for t in (20, 30) for i, j in ((0, 0), (0, 3), (3, 0), (1, 1))]
    defs += [g.Def(g.payload(t, gb.earth() + gb.u(3, 4) + gb.u(2, 4) + bytes(60), 6), f"grid template {t}") for t in (1, 10, 12, 21, 31, 50, 90, 101, 65535)]
    opts = [{"cap": 3000, "clone": rng.randrange(9)} for _ in defs]
    defs += [c18.grid(rng) for _ in range(6)]
    opts += [{"fail": x} for x in ("new", "project", "array") for _ in range(2)]
    g.check(c, defs, LOOK, c.build + " build: grid", opts)
    # numbers of points that do not fit 32 bits
    ws = c15.wrapped()
    g.check(c, ws, LOOK, c.build + " build: wrapped number of points", [{"cap": 100} for _ in ws])
    ls = c15.lopsided(rng)
    g.check_ij(c, rng.sample(ls, min(len(ls), n)), c.build + " build: walk")
    # Gaussian latitudes of grids of many rows
    gs = [g.latlon(2, x, tmpl=40, scan=m, lat1=89000000, lat2=-89000000, lon2=180000000) for x, m in ((814, 0), (1300, 64 + 32))]
    g.check_long(c, gs[:1 + (n > 500)], ["ij", "latlons"], c.build + " build: many latitudes", npos=4)


def headers(c, n):
    look = ["header", "product", "texts"]
    m.check_files(c, [m.rnd_file(c.rng) for _ in range(n)], look, c.build + " build: headers")


def iterators(c, n):
    rng = c.rng
    src = c26.fields(rng, n, False) + c26.grids(rng, 4 * n, False) + c26.files(rng, n, False) + [c26.short(rng) for _ in range(n)]
    c26.settle(c, [(s, c26.history(rng, rng.choice([2, 6, 9, 20]), s.hints)) for s in src for _ in range(3)])


def tool(c, n):
    """the tool, on the library it is built with; some grids are projected"""
    rng = c.rng
    R = c25.Runs(rng)
    try:
        datas = []
        for i in range(n):
            if i % 3:
                datas.append(c25.rnd_values_file(rng))
            else:
                ni, nj = rng.randrange(1, 5), rng.randrange(1, 5)
                s3 = gb.sect(3, g.projected(rng.choice([20, 30]), ni, nj, lat1=60000000, lon1=10000000, lad=60000000, lov=5000000, latin1=60000000, latin2=30000000,
                                            scan=rng.choice(MODES), centre=rng.choice([0, 0, 64])).p)
                datas.append(gb.msg([gb.s1(), s3, gb.s4(), gb.s5(0, ni * nj, gb.t_simple(2.5)), gb.s6(), gb.s7(rng.randbytes(ni * nj))]))
        libs, items, lr, rr, dd = c25.library(datas), [], [], [], []
        for data, lib in zip(datas, libs):
            path = R.put(data)
            for q in [c25.rnd_request(rng, lib) for _ in range(2)]:
                items.append((q, path))
                lr.append(lib)
                rr.append(q)
                dd.append(data.hex())
        runs, args = R.run(items)
        c25.judge(c, lr, rr, runs, args, c.build + " build: tool", dd)
    finally:
        R.close()


def others(c, name):
    """the quick checks of other properties, in this build, as far as the time goes"""
    stop = time.time() + 120
    mods = ["c02", "c03", "c04", "c05", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c15", "c16", "c17", "c18", "c19", "c20", "c21"]
    c.rng.shuffle(mods)
    done = []
    c.thorough = False
    for m in mods:
        if time.time() > stop:
            break
        importlib.import_module("checks." + m).run(c)
        done.append(m)
    c.thorough = True
    c.note("other_checks_in_" + name, done)


def run(c):
    rng = c.rng
    em = core.tlc("MCBuild", "MCBuildDeep" if c.thorough else "MCBuild", workers=core.JOBS, mem="8g").emitted
    c.note("grids_of_the_model", len(em))
    model = [g.Def(bytes(e["p"]), f"template {e['p'][7] * 256 + e['p'][8]} with {e['with']} without {e['without']}") for e in em]
    cap = c.n(2500, 40000)
    model = rng.sample(model, min(len(model), cap))
    g.check(c, model, LOOK, "usual build: grid of the model", [{"cap": 50}] * len(model))
    for name in ("noproj", "release", "wasm"):
        core.build(name=name)
        c.build = name
        with core.variant(name):
            k = c.n(1, 8)
            g.check(c, model, LOOK, name + " build: grid of the model", [{"cap": 50}] * len(model))
            recs = reading(c, 150 * k)
            decoding(c, 200 * k)
            grids(c, 150 * k)
            headers(c, 60 * k)
            iterators(c, 8 * k)
            if name != "wasm":
                tool(c, 60 * k)
            if c.thorough:
                others(c, name)
        c.sample({"build": name, "items": str(recs[0].get("items", recs[0].get("res")))[:200]})


run.meta = dict(rule="every grid of MCBuild asked of four builds; the library built without its projection feature, optimised without overflow checks and debug assertions, and for 32-bit "
                     "WebAssembly without JPEG 2000: random files (some damaged), sizes up to 2^64, fields of every packing (some damaged), grids of every template and mode, numbers of points "
                     "beyond 2^32, headers, histories on iterators and runs of the tool (not on WebAssembly), each held against the same specifications as the usual build; without the feature the "
                     "coordinates of projected grids must be refused as not supported; thorough: quick checks of other properties in each build",
                assumptions=["the projection library is replaced by a linear stand-in", "WebAssembly is run by node with 1 GB of memory; other 32-bit targets and Windows are not built"])
