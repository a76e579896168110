"""C03: damaged files."""
from checks import filelib as fl
from lib import core
from lib import gribbytes as gb

VALUES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 19, 20, 21, 127, 128, 255, 256, 65535, 1 << 16, (1 << 30) - 1, (1 << 31) - 1,
          1 << 31, (1 << 32) - 1, (1 << 32), (1 << 63) - 1, 1 << 63, (1 << 64) - 17, (1 << 64) - 16, (1 << 64) - 5, (1 << 64) - 1]


def fields(f, spans):
    """offset and size of the fields of the messages"""
    out = []
    for a, b in spans:
        out += [(a, 4), (a + 7, 1), (a + 8, 8)]
        p = a + 16
        while p < b - 4:
            out += [(p, 4), (p + 4, 1)]
            p += int.from_bytes(f[p:p + 4], "big")
        out.append((b - 4, 4))
    return out


def damage(rng, f, spans):
    k = rng.randrange(4)
    if k == 0:
        return f[:rng.randrange(len(f) + 1)]
    if k == 1 or not spans:
        return f[:len(f) - rng.randrange(min(len(f), 40) + 1)]
    o, n = rng.choice(fields(f, spans))
    old = int.from_bytes(f[o:o + n], "big")
    v = rng.choice([rng.choice(VALUES), old + rng.randrange(-6, 7), old ^ (1 << rng.randrange(8 * n)), rng.randrange(1 << (8 * n))])
    return f[:o] + (v % (1 << (8 * n))).to_bytes(n, "big") + f[o + n:]


def wide():
    """A file whose message and whose sections claim any size, beyond what fits 32 or 64 bits too."""
    body = gb.msg([gb.s1(), gb.s3_latlon(4, 1), gb.s4(), gb.s5(0, 4, gb.t_simple(2.5)), gb.s6(), gb.s7(bytes(4))])
    at, p = [], 16
    while p < len(body) - 4:
        at.append(p)
        p += int.from_bytes(body[p:p + 4], "big")
    n = len(body)
    out = []
    for t in [n, n + (1 << 32), n + (1 << 33), n + (1 << 40), n + (1 << 63), (1 << 64) - 1, (1 << 63) - 1, 1 << 32, (1 << 32) - 1, (1 << 32) + 16, (1 << 32) - 20, 1 << 31]:
        f = body[:8] + gb.u(t % (1 << 64), 8) + body[16:]
        for g in [f] + [f[:p] + gb.u(z, 4) + f[p + 4:] for p in at for z in ((1 << 32) - 1, 1 << 31, (1 << 31) - 1, (1 << 31) + 5, (1 << 32) - 16)]:
            out += [pre + g + pre for pre in (b"", b"xx")]
    return out


def run(c):
    # every cut and every overwritten field of small files, with invariants of the specification itself
    r = core.tlc("MCDamage", "MCDamageDeep" if c.thorough else "MCDamage", workers=4, mem="6g")
    em = r.emitted
    c.note("damaged_files_from_specification", len(em))
    cases = []
    for e in em:
        d = bytes(e["data"])
        for kind in ("sections", "subs", "open"):
            cases.append(dict(kind=kind, data=d, start=0))
    c.sample({k: (bytes(v).hex() if k == "data" else v) for k, v in em[len(em) // 3].items() if k != "itemsw"})
    outs = core.run_driver([dict(op=fl.OPS[x["kind"]], data=x["data"].hex()) for x in cases])
    c.count(len(cases))
    rest = []
    for x, o, e in zip(cases, outs, [e for e in em for _ in range(3)]):
        if x["kind"] == "sections":
            rec = fl.record(x, o)
            drop = lambda its: [{"k": "err"} if i["k"] == "err" else i for i in its]
            if drop(rec["items"]) not in (drop(e["items"]), drop(e["itemsw"])):
                c.violation(f"damaged file (at {e['at']}): specified {e['items'][-3:]} observed {rec['items'][-3:]}",
                            fl.replay(x, o, {"want": e["items"]}))
        else:
            rest.append((x, o))
    pick = rest if c.thorough else c.rng.sample(rest, 1500)
    recs = [fl.record(x, o) for x, o in pick]
    for i, e in core.validate("TraceFile", recs, min_shard=40):
        c.violation(f"damaged file, {pick[i][0]['kind']}: specified {str(e['want'])[-300:]} observed "
                    f"{str(recs[i].get('items', recs[i].get('res')))[-300:]}", fl.replay(pick[i][0], pick[i][1], e))
    # all of them, judged at least by how they end
    for x, o in rest:
        last = o.get("items", [o.get("res", {"k": o.get("died")})])
        if any(i["k"] not in ("sub", "end", "err", "ok") for i in last):
            c.violation(f"damaged file, {x['kind']}: observed {last[-1]}", fl.replay(x, o))
    # random files, random damage (once or twice)
    cases = []
    for _ in range(c.n(500, 8000)):
        f, spans = fl.rnd_file(c.rng, hi=60)
        d = damage(c.rng, f, spans)
        kind = c.rng.choice(["sections", "subs", "open", "slice"])
        cases.append(dict(kind="open", data=d, start=0, opt=dict(slice=True)) if kind == "slice" else dict(kind=kind, data=d, start=0))
    # damage in two places: no claim about the prefix beyond the specification's
    for _ in range(c.n(100, 2000)):
        f, spans = fl.rnd_file(c.rng, hi=30)
        if spans:
            for o, n in c.rng.choices(fields(f, spans), k=2):
                f = f[:o] + (c.rng.choice(VALUES) % (1 << (8 * n))).to_bytes(n, "big") + f[o + n:]
        cases.append(dict(kind="subs", data=f, start=0))
    fl.check(c, cases, "damage")
    ws = wide()
    fl.check(c, [dict(kind=c.rng.choice(["sections", "subs", "open"]), data=f, start=0) for f in c.rng.sample(ws, c.n(200, len(ws)))], "sizes of any width")


run.meta = dict(
    rule="every truncation and every field overwritten with boundary values, for small files (MCDamage), random damage of random files, and messages and sections that claim sizes up to 2^64",
    assumptions=["section-level items are not claimed after the damage beyond termination without panic"])
