"""C26: one sequence, however an iterator is consumed."""
from checks import declib as d
from checks import gridlib as gl
from checks.c05 import HUGE, real_arg
from checks.c16 import grid
from lib import core
from lib import gribbytes as gb

PLAIN = ["next", "next", "next", "hint", "clone", "use", "count", "last", "collect", "each"]
ARGS = ["nth", "nth", "skip", "drop", "take", "step"]


class Source:
    """something to iterate over: the kind of iterator, the file, whether the announced number of items is exact"""

    def __init__(self, what, data, exact=True, hints=True, label=""):
        self.what, self.data, self.exact, self.hints, self.label = what, data.hex(), exact, hints, label


def short(rng):
    """a field whose values run out"""
    n = rng.choice([3, 9, 17, 40])
    f = d.simple(rng, nbit=rng.choice([8, 12, 16]), npts=n, bitmap=False, extra=False)
    f.s7 = f.s7[:rng.randrange(len(f.s7))]
    if rng.random() < .5:  # before the bitmap does
        b = [1] * n + [0] * rng.choice([1, 5, 30])
        rng.shuffle(b)
        f.npts, f.bm, f.ind = len(b), gb.pack(b, 1), 0
    return Source("values", f.file(), hints=False, label="values that run out")


def j2k(rng, n):
    cs = d.j2k_cases(rng, n)
    out = []
    for x, o in zip(cs, core.encode(cs)):
        if "j2k" in o:
            f = d.Field(x["w"] * x["h"], d.s5_head(x["w"] * x["h"], 40) + d.simple_params(rng, x["prec"]), bytes.fromhex(o["j2k"]))
            out.append(Source("values", f.file(), label=f"JPEG 2000 {x['w']}x{x['h']}"))
    return out


def fields(rng, n, big):
    """n fields of each packing, with and without bitmaps"""
    out = []
    for k in range(n):
        npts = rng.choice([0, 1, 2, 5, 6, 7, 8, 9, 15, 16, 17, 33]) if not big else rng.randrange(257, 1200)
        out.append(d.simple(rng, nbit=rng.choice([0, 1, 7, 8, 12, 16, 32]), npts=npts, bitmap=bool(k & 1), extra=False))
        out.append(d.complex_(rng, diff=rng.choice([0, 1, 2]), bitmap=bool(k & 2), **(dict(maxgroups=40, maxn=60) if big else {})))
        out.append(d.runlength(rng))
        out.append(d.png_field(rng, bitmap=bool(k & 1), **(dict(w=37, h=rng.randrange(9, 30)) if big else {})))
    return [Source("values", f.file(), label=f.label or "values") for f in out]


def grids(rng, n, big):
    out = []
    for k in range(n):
        ni, nj = (rng.randrange(0, 7), rng.randrange(0, 7)) if not big else rng.choice([(300, 3), (2, 400), (33, 31), (257, 2)])
        mode = (k % 16) << 4
        if k % 4 == 3:
            lat = 60000000
            f = gl.projected(rng.choice([20, 30]), ni, nj, lat1=lat, lon1=10000000, lad=lat, lov=5000000, latin1=lat, latin2=30000000, scan=mode)
        else:
            f = grid(rng, ni=ni, nj=nj if k % 4 else max(nj, 2) if nj else 0, mode=mode, tmpl=0 if k % 4 else 40)
        for what in ("ij", "latlons"):
            out.append(Source(what, f.file(), label=f"grid {f.label}"))
    return out


def files(rng, n, big):
    out = []
    for _ in range(n):
        data = b""
        for _ in range(rng.choice([0, 1, 2, 3]) if not big else 60):
            ss = [gb.s1(), gb.s3_latlon(3, 2)]
            for _ in range(rng.randrange(1, 4)):
                ss += gb.field()
            data += gb.rnd_gap(rng) + gb.msg(ss)
        if rng.random() < .2 and len(data) > 40:
            data = data[:rng.randrange(len(data))]
        out += [Source(w, data, exact=w not in ("sections", "stream"), label="file") for w in ("sections", "stream", "listed", "submessages")]
    return out


def settle(c, jobs):
    """jobs: (source, operations)"""
    cases = [dict(op="seqops", what=s.what, data=s.data, ops=[real_arg(c.rng, o) for o in ops]) for s, ops in jobs]
    outs = core.run_driver(cases)
    recs, back = [], []
    for k, ((s, ops), case, o) in enumerate(zip(jobs, cases, outs)):
        if o["res"]["k"] == "err":  # nothing to iterate over
            continue
        if o["res"]["k"] != "ok":
            c.violation(f"{s.what} of {s.label}, {case['ops']}: {o['res']} after {str(o.get('out'))[:300]}", {"case": case, "observed": o})
            continue
        recs.append(dict(seq=o["seq"], ops=ops, out=o["out"], exact=s.exact))
        back.append(k)
        c.seen([s.what, s.data, ops])
    c.count(len(recs))
    clip = lambda v: [x if isinstance(x, str) else min(x, 1 << 30) for x in v]
    for r in recs:
        r["out"] = [clip(v) for v in r["out"]]
    for i, e in core.validate("TraceSeqIter", recs, min_shard=50):
        s, ops = jobs[back[i]]
        at = next((k for k, (a, b) in enumerate(zip(e["want"], recs[i]["out"])) if a != b), 0)
        c.violation(f"{s.what} of {s.label} ({len(recs[i]['seq'])} items), {cases[back[i]]['ops'][:at + 1]}: specified {str(e['want'][at])[:300]} observed {str(recs[i]['out'][at])[:300]}",
                    {"case": cases[back[i]], "specified": e["want"], "observed": outs[back[i]]})
    return recs


def history(rng, n, hints):
    ops, its = [], 1
    for _ in range(rng.randrange(3, 14)):
        k = rng.choice(PLAIN + ARGS)
        a = 0
        if k in ARGS:
            a = rng.choice([0, 1, 2, 3, 7, 8, 9, n - 1, n, n + 1, n // 2, rng.randrange(n + 1), HUGE])
            a = max(a, 1 if k == "step" else 0)
        if k == "hint" and not hints or k == "clone" and its == 4:
            continue
        its += k == "clone"
        if k == "use":
            a = rng.randrange(its)
        ops.append([k, a])
    return ops


def run(c):
    if c.thorough:
        # for sequences of any length
        c.note("obligations_proved_by_tlapm", core.tlapm("SubIterProof"))
    rng = c.rng
    r = core.tlc("MCSubIter", "MCSeqIterDeep" if c.thorough else "MCSeqIter", workers=core.JOBS, mem="10g")
    model = sorted({tuple(map(tuple, e["ops"])) for e in r.emitted})
    c.note("histories_of_the_model", len(model))
    sources = lambda n, big: fields(rng, n, big) + grids(rng, n * 3, big) + files(rng, n, big) + j2k(rng, n) + [short(rng) for _ in range(n)]
    # the model's histories, shared out among iterators of every kind
    src = sources(c.n(10, 30), False)
    jobs = []
    for h in rng.sample(model, min(len(model), c.n(9000, 60000))):
        s = rng.choice(src)
        if s.hints or all(o[0] != "hint" for o in h):
            jobs.append((s, [list(o) for o in h]))
    recs = settle(c, jobs)
    c.sample({k: next(r for r in recs if 2 < len(r["seq"]) < 9)[k] for k in ("seq", "ops", "out")})
    # random histories
    settle(c, [(s, history(rng, rng.choice([2, 6, 9, 20]), s.hints)) for s in src for _ in range(c.n(8, 40))])
    big = sources(c.n(2, 6), True)
    settle(c, [(s, history(rng, rng.choice([255, 256, 300, 1000]), s.hints)) for s in big for _ in range(c.n(4, 20))])


run.meta = dict(rule="every history of operations up to the depth bound (MCSubIter with the operations of MCSeqIter), shared out among iterators over values of every packing, index pairs, "
                     "coordinates of every grid, sections, submessages; random histories on the same and on longer ones",
                assumptions=["the sequence meant is what next alone delivers on a fresh iterator; that it is right is C01, C02, C05, C07-C18",
                             "iterators that cannot be cloned are copied by going the same way again"])
