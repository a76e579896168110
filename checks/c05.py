"""C05: the submessage iterator."""
from lib import core
from lib import gribbytes as gb

HUGE = 1000000


def files(rng):
    """files with 0..9 submessages in messages of different sizes, and the submessages' (product offset, m, s)"""
    out = {}
    for n in range(10):
        d, left, m, trip = b"", n, 0, []
        while left:
            k = rng.randrange(1, left + 1)
            left -= k
            sects = [gb.s1(), gb.s3_latlon(3, 2)]
            pos = len(d) + 16 + sum(map(len, sects))
            for s in range(k):
                if s and rng.random() < .3:
                    g = gb.s3_latlon(2, 3)
                    sects.append(g)
                    pos += len(g)
                f = gb.field()
                trip.append([pos, m, s])
                sects += f
                pos += sum(map(len, f))
            d += gb.msg(sects)
            m += 1
        out[n] = (d, trip)
    return out


def project(op, v, trip):
    """an observed result in terms of element numbers"""
    def el(x):
        return [] if x == [] else [trip.index(x) + 1 if x in trip else -1]
    if op in ("next", "nth", "skip", "last"):
        return el(v)
    if op in ("step", "reborrow"):
        return [e for x in v for e in (el(x) or [0])]
    return [min(x, 1 << 30) for x in v]


def real_arg(rng, o):
    return [o[0], rng.choice([HUGE, (1 << 31) - 1, 1 << 31, (1 << 32) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]) if o[1] == HUGE else o[1]]


def run(c):
    fs = files(c.rng)
    r = core.tlc("MCSubIter", "MCSubIterDeep" if c.thorough else "MCSubIter", workers=core.JOBS, mem="10g")
    em = r.emitted
    pick = em if len(em) < 60000 else c.rng.sample(em, 60000)
    c.note("histories_emitted", len(em))
    vias = ["iter", "submessages", "into"]
    jobs = [dict(op="iterops", data=fs[e["n"]][0].hex(), via=vias[i % 3], ops=[real_arg(c.rng, o) for o in e["ops"]])
            for i, e in enumerate(pick)]
    outs = core.run_driver(jobs)
    c.count(len(jobs))
    for e, j, o in zip(pick, jobs, outs):
        got = [project(op[0], v, fs[e["n"]][1]) for op, v in zip(e["ops"], o.get("out", []))]
        if got != e["res"] or "panic" in o or "died" in o:
            c.violation(f"{e['n']} submessages, {j['ops']}: specified {e['res']} observed {got} {o.get('panic', o.get('died', ''))}",
                        {"case": j, "specified": e["res"], "observed": o})
    c.sample(em[len(em) // 2])
    # long random histories
    recs, jobs = [], []
    for _ in range(c.n(1500, 20000)):
        n = c.rng.randrange(10)
        ops, its = [], 1
        for _ in range(c.rng.randrange(5, 25)):
            k = c.rng.choice(["next", "next", "nth", "skip", "hint", "hint", "step", "count", "last", "reborrow", "clone", "use"])
            a = 0
            if k in ("nth", "skip", "step"):
                a = c.rng.choice([0, 0, 1, 1, 2, 3, 4, 9, HUGE])
                if k == "step":
                    a = max(a, 1)
            if k == "clone":
                if its == 4:
                    continue
                its += 1
            if k == "use":
                a = c.rng.randrange(its)
            ops.append([k, a])
        jobs.append(dict(op="iterops", data=fs[n][0].hex(), via=vias[c.rng.randrange(3)], ops=[real_arg(c.rng, o) for o in ops]))
        recs.append({"n": n, "ops": ops})
    outs = core.run_driver(jobs)
    for r, o in zip(recs, outs):
        r["out"] = [project(op[0], v, fs[r["n"]][1]) for op, v in zip(r["ops"], o.get("out", []))]
        c.seen(r["ops"])
    c.count(len(recs))
    for i, e in core.validate("TraceSubIter", recs):
        c.violation(f"{recs[i]['n']} submessages, {jobs[i]['ops']}: specified {e['want']} observed {recs[i]['out']} "
                    f"{outs[i].get('panic', '')}", {"case": jobs[i], "specified": e["want"], "observed": outs[i]})
    c.sample({k: recs[0][k] for k in ("n", "ops", "out")})


run.meta = dict(rule="every history of operations up to the depth bound (emitted by MCSubIter), replayed; random histories of 5-25 operations "
                     "on files of 0-9 submessages validated against the specification",
                assumptions=["elements are recognised by the offset of their product section and their index pair"])
