"""Shared by the checks of the reading of files (C01-C04)."""
from lib import core
from lib import gribbytes as gb

CAP = 1 << 30


def cap(x):
    return min(x, CAP) if isinstance(x, int) else [cap(y) for y in x]


def item(o):
    o = dict(o)
    if o["k"] == "sect":
        o["off"] = cap(o["off"])
        o["size"] = cap(o["size"])
    elif o["k"] == "sub":
        o["parts"] = cap(o["parts"])
    elif o["k"] == "err":
        o["a"] = cap(o["a"])
    elif o["k"] == "panic":
        o.pop("m", None)
    return o


OPS = {"sections": "sections", "subs": "submessages", "open": "open"}


def run(cases):
    """cases: dicts kind, data (bytes), start, further driver options under opt.
    Returns (records for TraceFile, raw outputs)."""
    jobs = []
    for c in cases:
        jobs.append(dict(op=OPS[c["kind"]], data=c["data"].hex(), start=c.get("start", 0), **c.get("opt", {})))
    outs = core.run_driver(jobs)
    recs = []
    for c, o in zip(cases, outs):
        recs.append(record(c, o))
    return recs, outs


def record(c, o):
    r = {"kind": c["kind"], "data": list(c["data"]), "start": c.get("start", 0), "faults": o.get("faults", 0)}
    if c["kind"] == "open":
        r["res"] = {"k": o["res"]["k"]}
        r.update(len=o.get("len", 0), empty=o.get("empty", False), sects=[item(x) for x in o.get("sects", [])],
                 subs=cap(o.get("subs", [])))
    else:
        r["items"] = [item(x) for x in o.get("items", [{"k": o.get("died", "none")}])] or [{"k": "none"}]
    return r


def replay(c, o=None, e=None):
    d = dict(op=OPS[c["kind"]], data=c["data"].hex(), start=c.get("start", 0), **c.get("opt", {}))
    return {"case": d, "observed": o, "specified": (e or {}).get("want")}


def check(c, cases, what, key=None):
    """Runs the cases and holds them against TraceFile."""
    recs, outs = run(cases)
    c.count(len(cases))
    for x in cases[:200]:
        c.seen([x["kind"], x["data"].hex(), x.get("start", 0), x.get("opt", {})])
    # what the run shows without the specification: it ended
    bad = core.validate("TraceFile", recs, min_shard=40)
    for i, e in bad:
        c.violation(f"{what}: {cases[i]['kind']} of {len(cases[i]['data'])} octets: "
                    f"observed {str(recs[i].get('items', recs[i].get('res')))[:300]} specified {str(e['want'])[:300]}",
                    replay(cases[i], outs[i], e), key)
    return recs, outs


def rnd_file(rng, big=False, maxmsg=3, hi=40, maxsub=4):
    """a well-formed file: octets, offsets of the messages' starts and ends"""
    out = gb.rnd_gap(rng, big)
    spans = []
    for i in range(rng.randrange(0 if rng.random() < .1 else 1, maxmsg + 1)):
        m = gb.msg(gb.rnd_msg(rng, gb.rnd_seq(rng, maxsub), hi=hi), disc=rng.choice([0, 1, 2, 10, 255]))
        spans.append((len(out), len(out) + len(m)))
        out += m + gb.rnd_gap(rng, big)
    return out, spans
