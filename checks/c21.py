"""C21: list of templates and code-table texts."""
from checks import metalib as m
from lib import core
from lib import gribbytes as gb

NAMES = ["C00", "C11", "0.0", "1.1", "1.2", "1.3", "1.4", "3.1", "4.0", "4.3", "4.4", "4.5", "5.0"]


def run(c):
    rng = c.rng
    # every table at every code
    codes = list(range(0, 300)) + [1000, 1101, 32768, 65535, 65536, 1 << 20, (1 << 31) - 1]
    jobs = [(n, dict(op="lookup", table=n, codes=codes)) for n in NAMES]
    for d in range(256):
        jobs.append((f"4.1.{d}", dict(op="lookup", table="4.1", disc=d, codes=codes if d < 30 else codes[:6])))
    cats = range(256) if c.thorough else list(range(25)) + [190, 191, 192, 254, 255]
    for d in (list(range(25)) + [209, 255] if not c.thorough else range(256)):
        for k in cats:
            jobs.append((f"4.2.{d}.{k}", dict(op="lookup", table="4.2", disc=d, cat=k, codes=codes[:70] + codes[180:300:5] if d in (0, 1, 2, 3, 4, 10, 20) else codes[:5])))
    outs = core.run_driver([j for _, j in jobs])
    c.count(sum(len(j["codes"]) for _, j in jobs))
    recs = []
    for (n, j), o in zip(jobs, outs):
        recs.append(dict(t="lookup", table=n, codes=j["codes"],
                         out=[[[] if x[0] is None else [x[0]], m.text(x[1])] if isinstance(x, list) else [["panic"], ["panic", ""]] for x in o["out"]]))
    for i, e in m.validate(recs, min_shard=20):
        c.violation(f"table {jobs[i][0]}: observed {str(outs[i])[:400]}", {"case": jobs[i][1], "observed": outs[i]})
    c.note("tables_looked_up", len(jobs))
    # texts of times
    cases = [dict(op="fmt", unit=u, value=v) for u in range(256) for v in (0, 1, 65536, 4294967295)]
    outs = core.run_driver(cases)
    c.count(len(cases))
    recs = [dict(t="time", u=x["unit"], v=[x["value"] >> 16, x["value"] & 65535], unit=o.get("unit", ""), value=o.get("value", ""), display=o.get("display", "")) for x, o in zip(cases, outs)]
    for i, e in m.validate(recs, min_shard=50):
        c.violation(f"time {cases[i]}: observed {outs[i]}", {"case": cases[i], "observed": outs[i]})
    # parameters with a name, of all there are
    cases = [dict(op="named", discipline=x, centre=rng.choice([0, 7, 34, 98, 65535, rng.randrange(65536)]), master=rng.randrange(256), local=rng.randrange(256)) for x in range(256)]
    outs = core.run_driver(cases)
    c.count(65536 * len(cases))
    recs = [dict(t="named", d=x["discipline"], res={"k": o["res"]["k"]}, named=o.get("named", [])) for x, o in zip(cases, outs)]
    for i, e in m.validate(recs, min_shard=64):
        c.violation(f"parameters with a name, {cases[i]}: observed {str(outs[i])[:500]}", {"case": cases[i], "observed": outs[i]})
    # descriptions and template lists of files
    files = [m.rnd_file(rng) for _ in range(c.n(500, 6000))]
    m.check_files(c, files, ["texts"], "description")
    m.check_samples(c, ["texts"])
    few = [0, 1, 2, 40, 40, 200, 0, 256, 300]
    for _ in range(c.n(200, 2000)):  # a few templates many times, in any order
        fl = [(gb.u(0, 1) + gb.u(1, 4) + b"\0\0" + gb.u(rng.choice(few), 2), gb.u(0, 2) + gb.u(rng.choice(few), 2) + bytes(40), gb.u(1, 4) + gb.u(rng.choice(few), 2) + bytes(20), 255)
              for _ in range(rng.randrange(1, 6))]
        files.append([m.File(0, m.rnd_s1(rng), None, fl) for _ in range(rng.randrange(1, 3))])
    cases = [dict(op="open", data=b"".join(x.octets() for x in f).hex()) for f in files]
    outs = core.run_driver(cases)
    c.count(len(cases))
    recs = []
    for f, o in zip(files, outs):
        pairs = []
        for x in f:
            for s3, s4, s5, _ in x.fields:
                pairs += [[3, int.from_bytes(s3[7:9], "big")], [4, int.from_bytes(s4[2:4], "big")], [5, int.from_bytes(s5[4:6], "big")]]
        recs.append(dict(t="templates", pairs=pairs, opened=o["res"]["k"] == "ok", list=[x[:2] for x in o.get("tmpl", [])]))
    for i, e in m.validate(recs, min_shard=50):
        c.violation(f"templates of {cases[i]['data'][:300]}: observed {outs[i].get('tmpl', outs[i]['res'])}", {"case": cases[i], "observed": outs[i]})
    c.sample({"templates": recs[0]["list"]})


run.meta = dict(rule="every table of the library looked up at every code up to 300 and beyond, for every discipline and category (thorough); descriptions and template "
                     "lists of random files compared line by line with the rows of the tables the library was built with",
                assumptions=["the library is built with stand-in tables whose texts are all different, since the submodules with the WMO tables are empty here",
                             "a code that only a placeholder row covers may have an empty text or none"])
