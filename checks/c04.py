"""C04: schedules of reads and I/O failures."""
from checks import declib as d
from checks import filelib as fl
from lib import core
from lib import gribbytes as gb

KINDS = ["sections", "subs", "open"]


def sched(rng):
    k = rng.randrange(6)
    if k == 0:
        return [1]
    if k == 1:
        return [0, 1]
    if k == 2:
        return [rng.choice([1, 2, 3, 4, 5, 15, 16, 17])]
    if k == 3:
        return [0, 0, rng.randrange(1, 30)]
    return [rng.choice([0, 1, 2, 3, 4, 5, 7, 16, 100, 4096, 5000]) for _ in range(rng.randrange(1, 9))] + [rng.randrange(1, 9)]


def run(c):
    rng = c.rng
    # the reading machine delivers the same under every schedule, and an error after every failure
    core.tlc("MCReader", "MCReaderDeep" if c.thorough else "MCReader", workers=core.JOBS, mem="12g")
    # 1. schedules
    cases = []
    for i in range(c.n(400, 6000)):
        f, spans = fl.rnd_file(rng, big=i % 8 == 0, hi=80)
        if rng.random() < .3:
            f = f[:rng.randrange(len(f) + 1)]
        cases.append(dict(kind=rng.choice(KINDS), data=f, start=0, opt=dict(sched=sched(rng))))
    # every message split at every offset: the first read of n octets, then the rest
    f = b"GRI" + gb.simple_file(2) + b"G"
    for n in range(1, len(f) + 1):
        for kind in KINDS:
            cases.append(dict(kind=kind, data=f, start=0, opt=dict(sched=[n, 100000])))
            cases.append(dict(kind=kind, data=f, start=0, opt=dict(sched=[n, 0, 2, 3, 100000])))
    fl.check(c, cases, "schedule")
    # 2. every read and every seek of some files fails once, or from then on
    files = [gb.simple_file(1), b"xGRI" + gb.simple_file(2) + b"77" + gb.simple_file(1), b""]
    for _ in range(c.n(3, 30)):
        files.append(fl.rnd_file(rng, hi=30, maxmsg=2)[0])
    files.append(bytes(4100) + gb.simple_file(1))
    probe = [dict(op=fl.OPS[k], data=f.hex(), sched=s) for f in files for k in KINDS for s in ([], [7, 0, 3])]
    outs = core.run_driver(probe)
    cases = []
    for p, o in zip(probe, outs):
        kind = next(k for k in KINDS if fl.OPS[k] == p["op"])
        for what, n in (("fail_read", o["reads"]), ("fail_seek", o["seeks"])):
            ks = range(n + 1) if n < c.n(30, 200) else rng.sample(range(n + 1), c.n(30, 200))
            for k in ks:
                for sticky in (False, True):
                    cases.append(dict(kind=kind, data=bytes.fromhex(p["data"]), start=0,
                                      opt={what: k, "sticky": sticky, "sched": p["sched"]}))
    c.note("fault_positions", len(cases))
    recs, outs = fl.check(c, cases, "I/O failure")
    c.sample({"case": {k: (v.hex() if isinstance(v, bytes) else v) for k, v in cases[5].items()}, "items": recs[5].get("items")})
    # 3. decoding under schedules
    gens = [d.simple, d.complex_, d.runlength, d.png_field]
    fs, opts = [], []
    for _ in range(c.n(500, 6000)):
        fs.append(rng.choice(gens)(rng))
        opts.append(dict(sched=sched(rng), arm_after_open=rng.random() < .5))
    d.check(c, fs, "decoding under a schedule", opts=opts)
    # 4. decoding with a failure at every read and seek after opening
    base = [g(rng) for g in gens for _ in range(c.n(3, 20))] + [d.simple(rng, npts=20, bitmap=True) for _ in range(3)]
    base = [f for f in base if f.npts]
    for s in ([], [3, 0, 1]):
        outs = core.run_driver([f.case(arm_after_open=True, sched=s) for f in base])
        fs, opts = [], []
        for f, o in zip(base, outs):
            for what, n in (("fail_read", o["reads"]), ("fail_seek", o["seeks"])):
                for k in list(range(min(n, 60) + 1)):
                    for sticky in (False, True):
                        fs.append(f)
                        opts.append({what: k, "sticky": sticky, "sched": s, "arm_after_open": True})
        d.check(c, fs, "decoding with an I/O failure", opts=opts)
    c.sample({"decode": fs[3].label, **opts[3]})


run.meta = dict(
    rule="random files and fields under random read schedules (1-octet reads, interruptions, changing sizes); one file split at every "
         "octet; a failure of every read call and of every seek call, once or persistent, while streaming, opening and decoding",
    assumptions=["after the reported failure the streams are asked on and must yield nothing further"])
