"""C01: reading tiles the file."""
from checks import biglib, filelib as fl
from lib import core
from lib import gribbytes as gb


def run(c):
    # 1. the reading machine delivers Items under every schedule (small layout)
    core.tlc("MCReader", "MCReaderDeep" if c.thorough else "MCReader", workers=core.JOBS, mem="12g")
    # 2. Items inverts encoding; every small file is replayed
    r = core.tlc("MCFile", "MCFileRich" if c.thorough else "MCFile", workers=core.JOBS, mem="6g")
    em = r.emitted
    jobs = [dict(op="sections", data=bytes(e["data"]).hex()) for e in em]
    outs = core.run_driver(jobs)
    c.count(len(em))
    c.note("files_from_specification", len(em))
    for e, j, o in zip(em, jobs, outs):
        got = [fl.item(x) for x in o.get("items", [{"k": o.get("died")}])]
        if got != e["items"]:
            c.violation(f"file {j['data'][:200]}: specified {e['items']} observed {got}", {"case": j, "specified": e["items"], "observed": got})
    c.sample({"file": bytes(em[-1]["data"]).hex(), "items": em[-1]["items"]})
    # 3. larger random files, from any offset, against the specification
    cases = []
    for _ in range(c.n(250, 4000)):
        f, spans = fl.rnd_file(c.rng, big=True, hi=200)
        starts = {0}
        if spans:
            k = c.rng.randrange(len(spans))
            prev = spans[k - 1][1] if k else 0
            starts.add(c.rng.randrange(prev, spans[k][0] + 1))
            starts.add(spans[-1][1])
        starts.add(c.rng.randrange(0, len(f) + 1))   # inside a section: whatever follows
        starts.add(len(f) + 7)
        for st in starts:
            cases.append(dict(kind="sections", data=f, start=st))
        cases.append(dict(kind="open", data=f, start=0))
        cases.append(dict(kind="open", data=f, start=0, opt=dict(slice=True)))
    # the start of a message at every distance around the boundaries of the window searched at a time
    for b in (0, 4096, 4081, 8162, 8192, 12243):
        for d in range(-22, 23):
            if b + d >= 0:
                g = gb.rnd_bytes(c.rng, b + d, b"GRI7").replace(b"GRIB", b"GRIG")
                cases.append(dict(kind="sections", data=g + gb.simple_file(1) + b"GRI" * 3, start=0))
    recs, outs = fl.check(c, cases, "tiling")
    c.sample({"file_octets": len(cases[0]["data"]), "start": cases[0]["start"], "items": recs[0].get("items", [])[:6]})
    # 4. files beyond 2^32 octets (sparse), and the files shipped with the repository
    biglib.check(c, c.n(6, 40), True)


run.meta = dict(
    rule="files enumerated by MCFile (all combinations of gaps and message shapes), random files with gaps around the "
         "search window, starts at any offset; a case is one file read from one offset",
    assumptions=["in files held in memory, totals and section sizes from 2^30 on are not told apart; sparse files reach beyond 2^32",
                 "the driver reports the fields of SectionInfo faithfully"])
