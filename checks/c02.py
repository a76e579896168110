"""C02: grouping of sections into submessages."""
from checks import filelib as fl
from lib import core
from lib import gribbytes as gb


def same(w, o):
    """specified and observed item of a stream over section numbers (offset = 10 * index, size = index + 1)"""
    if w["k"] != o["k"]:
        return False
    if w["k"] == "err":
        return w["e"] == o["e"] and (w["e"] == "ReadError" or w["a"] == o["a"])
    if w["k"] == "end":
        return True
    if (w["m"], w["s"]) != (o["m"], o["s"]):
        return False
    for n, i in enumerate(w["parts"]):
        if o["parts"][n] != ([] if i == 0 else [n, (i - 1) * 10, i]):
            return False
    return w["end"] == 0 or o["parts"][8] == [8, (w["end"] - 1) * 10, w["end"]]


def realise(rng, seq):
    """a file whose sections have these numbers, as far as octets can express them"""
    out, cur, disc = b"", None, 0
    for n in seq:
        if n == 0:
            if cur is not None:
                out += close(cur, disc)
            cur, disc = [], rng.randrange(256)
        elif cur is None:
            break    # octets between messages are not sections
        elif n == 8:
            out += gb.msg(cur, disc=disc)
            out += gb.rnd_gap(rng)
            cur = None
        elif n == 99 or n > 8:
            cur.append(gb.sect(rng.choice([8, 9, 0, 255]), b"xx"))
            break
        else:
            cur.append(gb.sect(n, gb.rnd_body(rng, gb.LO[n])))
    if cur is not None:
        out += close(cur, disc)
    return out


def close(sects, disc):
    """a message that ends without an end section"""
    body = b"".join(sects)
    return b"GRIB\0\0" + bytes([disc, 2]) + gb.u(16 + len(body), 8) + body


def run(c):
    r = core.tlc("MCGrouping", "MCGroupingDeep" if c.thorough else "MCGrouping", workers=core.JOBS, mem="6g")
    em = r.emitted
    em.sort(key=lambda e: (len(e["seq"]), e["seq"]))
    jobs = [dict(op="grouping", seq=e["seq"]) for e in em]
    outs = core.run_driver(jobs)
    c.count(len(jobs))
    c.note("sequences_from_specification", len(em))
    for e, j, o in zip(em, jobs, outs):
        it = o.get("items", [])
        w = e["out"]
        ok = (len(it) >= len(w) and all(same(a, b) for a, b in zip(w, it))
              and all(x["k"] == "end" for x in it[len(w):]))
        if not ok:
            c.violation(f"sections {e['seq']}: specified {w} observed {it}", {"case": j, "specified": w, "observed": it})
    c.sample(em[len(em) // 2])
    # the same sequences as octets, through the streams and the opened file
    cases = []
    pick = em if c.thorough and len(em) < 6000 else c.rng.sample(em, min(len(em), c.n(500, 6000)))
    for e in pick:
        d = realise(c.rng, e["seq"])
        cases.append(dict(kind="subs", data=d))
        cases.append(dict(kind="open", data=d))
    # random longer files and edits of them
    for _ in range(c.n(150, 3000)):
        d, spans = fl.rnd_file(c.rng, maxmsg=4, maxsub=6, hi=20)
        cases.append(dict(kind="subs", data=d, start=0))
        cases.append(dict(kind="open", data=d))
        seq = []
        for _ in range(c.rng.randrange(1, 4)):
            seq += [0] + gb.rnd_seq(c.rng, 5) + [8]
        k = c.rng.randrange(1, len(seq))
        kind = c.rng.randrange(4)
        if kind == 0 and seq[k] not in (0, 8):
            seq.insert(k, c.rng.randrange(1, 8))
        elif kind == 1 and seq[k] not in (0, 8):
            del seq[k]
        elif kind == 2 and seq[k] not in (0, 8):
            seq[k] = c.rng.randrange(1, 8)
        elif seq[k] not in (0, 8) and seq[k - 1] not in (0, 8):
            seq[k], seq[k - 1] = seq[k - 1], seq[k]
        d = realise(c.rng, seq)
        cases.append(dict(kind="subs", data=d))
        cases.append(dict(kind="open", data=d))
    recs, outs = fl.check(c, cases, "grouping")
    c.sample({"file": cases[-2]["data"].hex()[:400], "items": recs[-2].get("items", [])[-3:]})


run.meta = dict(
    rule="every section sequence up to the bound that the grammar accepts so far, with every wrong continuation, replayed "
         "through the submessage stream; realised as octets through both streams and the opened file; random longer ones",
    assumptions=["the driver's in-memory section source stands for a section stream when sequences are replayed by number"])
