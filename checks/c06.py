"""C06: submessages of one open file, accessed in any order."""
import hashlib, json
from lib import core
from lib import gribbytes as gb
from checks import declib as dl


def digest(v):
    """(text, is an error) of an observation"""
    if isinstance(v, dict) and "walk" not in v:
        r = v.get("res", {}).get("k")
        if r == "nosub":
            return "none", True
        if r == "err":
            return "err " + json.dumps({x: y for x, y in v["res"].items() if x != "a"}, sort_keys=True), True
        if r in ("panic", "crash", "hang"):
            return r, False
    t = json.dumps(v, sort_keys=True)
    return t[:40] + " " + hashlib.sha1(t.encode()).hexdigest(), False


def s4_rnd(rng):
    b = bytearray(rng.randbytes(29))
    b[4] = rng.choice([0, 1, 2, 11])
    return gb.s4(0, bytes(b))


def grid(rng, n):
    k = rng.randrange(3)
    if k == 0 or n == 0:
        g = gb.g_latlon(n, 1, lat1=rng.randrange(90000000), lon1=1000000, lat2=rng.randrange(90000000), lon2=300000000, scan=0)
        g = gb.g_latlon(n, 1, lat1=10000000, lon1=rng.randrange(1000000), lat2=10000000, lon2=rng.randrange(2000000, 300000000), scan=0)
    elif k == 1:
        g = gb.g_latlon(1, n, lat1=10000000, lon1=5, lat2=rng.randrange(-80000000, 0), lon2=5, scan=rng.choice([0, 0x10, 0x20]))
    else:
        g = gb.g_latlon(n, 1, scan=rng.choice([0x40, 0x08, 0]), lat1=3000000)
    return gb.s3(0, g, n)


def field(rng, kind):
    while True:
        k = rng.randrange(6)
        if kind == "bitmap":
            f = dl.simple(rng, bitmap=True) if k < 4 else dl.complex_(rng, bitmap=True, maxw=12, maxn=16)
        else:
            f = (dl.simple(rng, bitmap=False) if k < 3 else dl.complex_(rng, bitmap=False, maxw=12, maxn=16) if k < 4 else
                 dl.runlength(rng) if k == 4 else dl.png_field(rng, bitmap=False))
        if f.s7 and f.npts:
            break
    if kind == "bad":
        f.ind = rng.randrange(1, 255)
    if kind == "broken":  # set up, but not decodable
        f.s5 = f.s5[:4] + gb.u(rng.choice([1, 4, 50, 61, 999]), 2) + f.s5[6:]
    return f


def build(rng, kinds):
    """A file of these fields in messages; and the files of each alone."""
    out, alone, offs = b"", [], []
    k, m = 0, 0
    while k < len(kinds):
        n = rng.randrange(1, len(kinds) - k + 1)
        disc = rng.choice([0, 1, 2, 10, 209])
        s1 = gb.s1(centre=rng.randrange(65536), sub=rng.randrange(65536), mver=rng.randrange(30), ymdhms=(rng.randrange(1990, 2030), rng.randrange(1, 13), rng.randrange(1, 29), 5, 6, 7))
        sects, s2, s3 = [s1], None, None
        last = None
        for j in range(n):
            f = field(rng, kinds[k + j])
            # without a new grid, fields share the grid: only if the numbers of points agree
            if s3 is None or last != f.npts or rng.random() < .4:
                if rng.random() < .5:
                    s2 = gb.s2(rng.randbytes(rng.randrange(0, 9)))
                    sects.append(s2)
                s3 = grid(rng, f.npts)
                sects.append(s3)
                last = f.npts
            own = [s4_rnd(rng), gb.sect(5, f.s5), gb.s6(f.ind, f.bm), gb.s7(f.s7)]
            offs.append([m, j, len(out) + 16 + sum(map(len, sects))])
            sects += own
            alone.append(gb.msg([s1] + ([s2] if s2 else []) + [s3] + own, disc=disc))
        out += gb.msg(sects, disc=disc)
        k += n
        m += 1
    return out, alone, offs


REF = ["meta", "grid", "decode", "partial", "hold"]


def refs(files):
    """what the library says of each field alone"""
    jobs = [dict(op="history", data=a.hex(), ops=[[w, 0, 0]]) for _, al, _ in files for a in al for w in REF]
    outs = iter(core.run_driver(jobs))
    res = []
    for _, al, offs in files:
        r = {w: [] for w in REF}
        for _ in al:
            for w in REF:
                o = next(outs)
                r[w].append(digest(o["out"][0][0])[0] if o.get("out") else "unopened")
        r["walk"] = [digest({"walk": offs})[0]]
        res.append(r)
    return res


def judge(c, files, ref, jobs, which):
    outs = core.run_driver(jobs)
    recs = []
    for j, o, i in zip(jobs, outs, which):
        out = []
        for op, x in zip(j["ops"], o.get("out", [])):
            t, e = digest(x[0])
            out.append(["kept" if op[0] == "keep" and t.startswith('{"res": {"k": "ok"}}') else t, e, x[1]])
        recs.append(dict(ref=ref[i], ops=j["ops"], out=out))
    c.count(len(jobs))
    for i, e in core.validate("TraceAccess", recs, min_shard=50):
        k = e.get("at", 1) - 1
        got = outs[i].get("out", [None] * 99)
        c.violation(f"history {jobs[i]['ops']}: operation {k} specified {e['want'][:200]} observed {str(got[k] if k < len(got) else outs[i])[:300]}",
                    {"case": jobs[i], "specified": recs[i]["ref"], "observed": outs[i]})
    return recs


KINDS = ["plain", "bitmap", "bad", "plain"]


def run(c):
    rng = c.rng
    sfx = "Deep" if c.thorough else ""
    core.tlc("MCAccess", "MCAccessShort" + sfx, workers=core.JOBS, mem="10g")
    em = core.tlc("MCAccess", "MCAccess" + sfx, workers=core.JOBS, mem="10g").emitted
    c.note("histories_emitted", len(em))
    subs = 4 if c.thorough else 3
    files = [build(rng, KINDS[:subs]) for _ in range(c.n(12, 60))]
    ref = refs(files)
    cap = c.n(16000, 120000)
    pick = em if len(em) <= cap else rng.sample(em, cap)
    which = [rng.randrange(len(files)) for _ in pick]
    jobs = [dict(op="history", data=files[i][0].hex(), ops=[[o[0], o[1] - 1, o[2]] for o in e["ops"]]) for e, i in zip(pick, which)]
    recs = judge(c, files, ref, jobs, which)
    c.sample({"ops": jobs[0]["ops"], "out": recs[0]["out"]})
    # long histories on larger files, with short reads and interruptions
    files = [build(rng, [rng.choice(["plain", "plain", "bitmap", "bitmap", "bad", "broken"]) for _ in range(rng.randrange(1, 9))])
             for _ in range(c.n(60, 500))]
    ref = refs(files)
    jobs, which = [], []
    for i, f in enumerate(files):
        for _ in range(c.n(12, 30)):
            n, ops, nh, kept = len(f[1]), [], 0, 0
            for _ in range(rng.randrange(4, 40)):
                w = rng.choice(["meta", "grid", "decode", "decode", "decode", "partial", "hold", "draw", "draw", "keep", "kmeta", "kgrid", "kdecode", "walk", "collect"])
                k = rng.randrange(n)
                if w == "draw":
                    if not nh:
                        continue
                    k = rng.randrange(nh)
                if w[0] == "k" and w != "keep":
                    if not kept:
                        continue
                    k = rng.randrange(kept)
                if w in ("walk", "collect"):
                    k = 0
                nh += w == "hold"
                kept += w == "keep"
                ops.append([w, k, rng.randrange(1, 8) if rng.random() < .15 else 0])
            jobs.append(dict(op="history", data=f[0].hex(), ops=ops, sched=rng.choice([[], [], [1], [2, 0, 5], [3, 1, 4096]])))
            which.append(i)
    recs = judge(c, files, ref, jobs, which)
    for j in jobs[:200]:
        c.seen(j["ops"])
    c.sample({"ops": jobs[0]["ops"], "out": recs[0]["out"][:4]})


run.meta = dict(rule="every history of three operations with at most one failing read (two in the thorough tier) emitted by MCAccess, replayed on files of "
                     "different composition; random histories of up to 40 operations with failing, short and interrupted reads; every result must be "
                     "the one obtained from a file with only that field",
                assumptions=["the driver's projection of headers, grid and values shows every difference that matters"])
