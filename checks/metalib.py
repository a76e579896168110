"""Shared by the checks of headers and texts (C19-C21)."""
import csv, glob, json, os, re, tempfile
from lib import core
from lib import gribbytes as gb

DEF = os.path.join(core.VERIF, "harness/grib-shim/def")
PLACE = {"Future versions", "Reserved", "Reserved for local use", "Reserved for other centres", "Missing", "Missing value"}


def tables():
    """name -> rows [first, last, text] of the stand-in tables the harness builds the library with"""
    t = {}

    def put(name, code, text):
        a, _, b = code.partition("-")
        t.setdefault(name, []).append([int(a), int(b or a), "" if text in PLACE else text])

    for n, f in (("C00", "C00.csv"), ("C11", "C11.csv")):
        rows = list(csv.reader(open(f"{DEF}/CCT/{f}", newline="")))[1:]
        for r in rows:
            put(n, *((r[0], r[3]) if n == "C00" else (r[1], r[2])))
    for p in sorted(glob.glob(DEF + "/GRIB2/*.csv")):
        m = re.search(r"CodeFlag_(\d+)_(\d+)_", p)
        for r in list(csv.reader(open(p, newline="")))[1:]:
            d = re.match(r"Product discipline (\d+)[^,]*(?:, parameter category (\d+))?", r[1])
            name = ".".join(list(m.groups()) + [x for x in (d.groups() if d else ()) if x])
            put(name, r[2], r[4])
    # rows that only reserve codes at the end of a table do not make it longer
    for rows in t.values():
        while rows and rows[-1][2] == "":
            rows.pop()
    return t


TABLES = None


def validate(recs, min_shard=20):
    global TABLES
    if TABLES is None:
        TABLES = tables()
    fd, path = tempfile.mkstemp(dir=core.BUILD, suffix=".tables.json")
    with os.fdopen(fd, "w") as f:
        json.dump(TABLES, f)
    try:
        return core.validate("TraceHeader", recs, min_shard=min_shard, env={"TABLES": path})
    finally:
        os.unlink(path)


def text(s):
    m = re.search(r"(\d+).*not implemented", s)
    return ["none", m.group(1)] if m else ["text", s]


def oct_(o):
    return o if isinstance(o, list) else [-99]


def hexl(h):
    return list(bytes.fromhex(h))


def ident_rec(i):
    if not isinstance(i, dict):
        return {"f": {}, "time": {"k": "absent"}}
    return {"f": {k: i[k] for k in ("centre", "sub", "master", "local", "sig", "status", "type")},
            "time": {"k": i["time"]["k"], "t": i["time"].get("t", [])}}


def grid_rec(g):
    d = g["def"]
    r = {"num": g["num"], "tmpl": g["tmpl"], "def": {"k": d["k"]}}
    r["fields"] = {k: d[k] for k in ("t", "name", "u", "s", "o", "e")} if d["k"] == "ok" else {}
    return r


def prod_rec(p):
    return {"ncoord": p["ncoord"], "tmpl": p["tmpl"], "cat": oct_(p["cat"]), "num": oct_(p["num"]), "gen": oct_(p["gen"]),
            "ft": oct_(p["ft"]), "fs": oct_(p["fs"])}


def payload_rec(kind, p, out):
    r = dict(t="payload", kind=kind, p=list(p), res={"k": out["res"]["k"]})
    if out["res"]["k"] == "ok":
        v = out["v"]
        r["payload"] = hexl(v["payload"])
        if kind == 1:
            r["ident"] = ident_rec(v)
        elif kind == 3:
            r["grid"] = grid_rec(v)
        elif kind == 4:
            r["prod"] = prod_rec(v)
        else:
            r["repr"] = {"num": v["num"], "tmpl": v["tmpl"]}
    return r


def check_payloads(c, items, what):
    """items: (kind, payload)"""
    cases = [dict(op="payload", kind=k, data=bytes(p).hex()) for k, p in items]
    outs = core.run_driver(cases)
    c.count(len(items))
    recs = [payload_rec(k, p, o) for (k, p), o in zip(items, outs)]
    for k, p in items[:200]:
        c.seen([k, bytes(p).hex()])
    for i, e in validate(recs):
        c.violation(f"{what}: section {items[i][0]} with payload {bytes(items[i][1]).hex()}: specified {str(e['want'])[:300]} observed {str(outs[i])[:400]}",
                    {"case": cases[i], "specified": e["want"], "observed": outs[i]})


def replay(c, cfg, kinds):
    """Every section of MCHeader read by the real code."""
    r = core.tlc("MCHeader", cfg, workers=core.JOBS, mem="6g")
    em = [e for e in r.emitted if e["kind"] in kinds]
    c.note("sections_of_the_model", len(em))
    cases = [dict(op="payload", kind=e["kind"], data=bytes(e["p"]).hex()) for e in em]
    outs = core.run_driver(cases)
    c.count(len(em))
    c.sample(em[len(em) // 2], cap=1)
    for e, case, o in zip(em, cases, outs):
        w = e["means"]
        bad = w["k"] != o["res"]["k"]
        if not bad and w["k"] == "ok":
            g = payload_rec(e["kind"], e["p"], o)
            bad = g["payload"] != e["p"]
            if e["kind"] == 1:
                tm = g["ident"]["time"]
                bad |= g["ident"]["f"] != w["ident"] or (tm["k"] != w["timeis"] if w["timeis"] != "any" else tm["k"] not in ("ok", "err")) or (tm["k"] == "ok" and tm["t"] != w["time"])
            elif e["kind"] == 3:
                d = g["grid"]
                bad |= d["num"] != w["num"] or d["tmpl"] != w["tmpl"] or (d["def"]["k"] != w["is"] if w["is"] != "any" else d["def"]["k"] not in ("ok", "err"))
                bad |= w["is"] == "ok" and d["fields"] != w["def"]
            elif e["kind"] == 4:
                bad |= g["prod"] != w["prod"]
            else:
                bad |= g["repr"] != w["repr"]
        if bad:
            c.violation(f"section {e['kind']} with payload {bytes(e['p']).hex()}: specified {str(w)[:400]} observed {str(o)[:400]}",
                        {"case": case, "specified": w, "observed": o})


def describe_rec(d):
    if not isinstance(d, str):
        return []
    return [text(l.partition(":")[2].strip()) for l in d.splitlines()]


class File:
    """A file of one or more fields: sections as payloads."""

    def __init__(self, disc, s1, s2, fields, npad=0, s3last=None):
        # fields: (s3, s4, s5, ind)
        self.disc, self.s1, self.s2, self.fields = disc, bytes(s1), s2, fields

    def octets(self):
        ss = [gb.sect(1, self.s1)]
        if self.s2 is not None:
            ss.append(gb.sect(2, self.s2))
        for s3, s4, s5, ind in self.fields:
            ss += [gb.sect(3, s3), gb.sect(4, s4), gb.sect(5, s5), gb.sect(6, bytes([ind])), gb.sect(7, b"")]
        return gb.msg(ss, disc=self.disc)


def w64(n):
    return [(n >> k) & 0xffff for k in (48, 32, 16, 0)]


def check_files(c, files, look, what, raw=None):
    """Everything the submessages of the files say. files: lists of File, one list per file (its messages)."""
    datas = [b"".join(m.octets() for m in ms) for ms in files]
    cases = [dict(op="meta", data=d.hex()) for d in datas]
    outs = core.run_driver(cases)
    c.count(len(cases))
    recs, where = [], []
    for ms, o, case in zip(files, outs, cases):
        subs = [(m, f) for m in ms for f in m.fields]
        got = o.get("subs", []) if o["open"]["k"] == "ok" else []
        for n, (m, (s3, s4, s5, ind)) in enumerate(subs):
            s = dict(s1=list(m.s1), s2=[] if m.s2 is None else [list(m.s2)], s3=list(s3), s4=list(s4), s5=list(s5), ind=ind, disc=m.disc,
                     total=w64(len(m.octets())))
            recs.append(meta_rec(s, got[n] if len(got) == len(subs) else None, look))
            where.append((case, o, n))
    for d in datas[:200]:
        c.seen(d.hex())
    for i, e in validate(recs):
        case, o, n = where[i]
        c.violation(f"{what}: submessage {n} of {case['data'][:400]}: specified {str(e['want'])[:400]} observed {str(o.get('subs', [o])[n] if len(o.get('subs', [])) > n else o)[:700]}",
                    {"case": case, "specified": e["want"], "observed": o})
    return recs


def check_samples(c, look):
    """The same, of the repository's sample files."""
    from checks import longlib
    names, cases, subs = [], [], []
    for name, data in sorted(longlib.samples().items()):
        ss, at = [], data.find(b"GRIB")
        for secs in longlib.walk(data):
            cur, total = {}, data[at + 8:at + 16]
            for num, p in secs:
                cur[num] = p
                if num == 7:
                    ss.append(dict(s1=list(cur[1]), s2=[list(cur[2])] if 2 in cur else [], s3=list(cur[3]), s4=list(cur[4]), s5=list(cur[5]), ind=cur[6][0],
                                   disc=data[at + 6], total=w64(int.from_bytes(total, "big"))))
            at = data.find(b"GRIB", at + int.from_bytes(total, "big"))
        names.append(name)
        cases.append(dict(op="meta", data=data.hex()))
        subs.append(ss)
    outs = core.run_driver(cases, timeout=120)
    recs, where = [], []
    for name, ss, o in zip(names, subs, outs):
        got = o.get("subs", []) if o["open"]["k"] == "ok" else []
        for n, s in enumerate(ss):
            recs.append(meta_rec(s, got[n] if len(got) == len(ss) else None, look))
            where.append((name, o, n))
    c.count(len(recs))
    c.note("fields_of_sample_files", len(recs))
    for i, e in validate(recs):
        name, o, n = where[i]
        c.violation(f"sample file {name} submessage {n}: specified {str(e['want'])[:400]} observed {str(o.get('subs', [o])[n] if len(o.get('subs', [])) > n else o)[:700]}",
                    {"sample": name, "submessage": n, "specified": e["want"], "observed": o.get("open")})


def meta_rec(s, h, look):
    r = dict(t="meta", s=s, look=list(look), opened=h is not None)
    if h is not None:
        pr = lambda x: [int(y) for y in x.split(".")]
        r.update(disc=h["disc"], total=h["total"], ident=ident_rec(h["ident"]), local=[hexl(x) for x in h["local"]], grid=grid_rec(h["grid"]),
                 repr={"num": h["repr"]["num"], "tmpl": h["repr"]["tmpl"]}, bitmap=h["bitmap"], prod=prod_rec(h["prod"]),
                 payloads=[hexl(h["ident"]["payload"]) if isinstance(h["ident"], dict) else [], hexl(h["grid"]["payload"]), hexl(h["prod"]["payload"]), hexl(h["repr"]["payload"])],
                 param=oct_(h["param"]), pdesc=h["pdesc"], ncep=h["ncep"], codes=[pr(x) for x in h["codes"][:3]], tmpltext=[text(x) for x in h["tmpl"]],
                 text=describe_rec(h["describe"]))
    return r


# --- generators -----------------------------------------------------------------

PRODS = list(range(16)) + [20] + list(range(30, 36)) + list(range(40, 50)) + [51] + list(range(53, 64)) + [67, 68] + list(range(70, 74)) + list(range(76, 89)) \
    + [91, 254, 1000, 1001, 1002, 1100, 1101]


def octets(rng, n):
    k = rng.randrange(5)
    if k == 0:
        return bytes(rng.choice([0, 255, 128, 127, 1]) for _ in range(n))
    if k == 1:
        return b"\xff" * n
    return rng.randbytes(n)


def rnd_s1(rng):
    if rng.random() < .7:
        t = (rng.choice([1, 1600, 1900, 1999, 2000, 2023, 2024, 2100, 9999, 65535, rng.randrange(1, 65536)]), rng.choice([1, 2, 2, 2, 3, 4, 6, 9, 11, 12, 0, 13, rng.randrange(1, 13)]),
             rng.choice([1, 28, 29, 29, 30, 31, 0, 32, rng.randrange(1, 29)]), rng.choice([0, 23, 24, rng.randrange(24)]), rng.choice([0, 59, 60, rng.randrange(60)]),
             rng.choice([0, 59, 61, 255, rng.randrange(60)]))
        if rng.random() < .5:
            t = (t[0], min(max(t[1], 1), 12), min(max(t[2], 1), 28), t[3] % 24, t[4] % 60, t[5] % 60)
        b = octets(rng, 7) + gb.u(t[0], 2) + bytes(t[1:]) + octets(rng, 2)
    else:
        b = octets(rng, 16)
    return b + octets(rng, rng.choice([0, 0, 0, 1, 5]))


def rnd_s3(rng):
    t = rng.choice([0, 0, 20, 30, 40, 1, 10, 12, 50, 90, 101, 65535, rng.randrange(65536)])
    whole = {0: 58, 40: 58, 20: 51, 30: 67}.get(t, 20)
    n = rng.choice([whole] * 6 + [0, 1, whole - 1, whole + 1, whole - 8, whole - 9, rng.randrange(whole + 4)])
    return bytes([rng.randrange(256)]) + octets(rng, 4) + bytes([0 if rng.random() < .9 else 1, rng.randrange(256)]) + gb.u(t, 2) + octets(rng, max(n, 0))


def rnd_s4(rng, tmpl=None):
    t = tmpl if tmpl is not None else rng.choice(PRODS + [16, 50, 52, 89, 92, 1003, 1102, 65535, rng.randrange(65536)])
    n = rng.choice([60, 60, 60, 34, 30, rng.randrange(0, 60)])
    b = bytearray(octets(rng, n))
    if n > 2 and rng.random() < .6:
        b[0], b[1], b[2] = rng.randrange(8), rng.randrange(12), rng.randrange(10)
        if n > 9:
            b[8] = rng.choice([0, 1, 2, 10, 11, 13, 255, 7, 8, 9, 3])
    return octets(rng, 2) + gb.u(t, 2) + bytes(b)


def rnd_s5(rng):
    return octets(rng, 4) + gb.u(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 40, 41, 42, 50, 200, rng.randrange(65536)]), 2) + octets(rng, rng.choice([0, 5, 15, 15, 40]))


def rnd_file(rng, fields=None):
    ms = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        s3 = rnd_s3(rng)
        fl = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < .5:
                s3 = rnd_s3(rng)
            fl.append((s3, rnd_s4(rng), rnd_s5(rng), rng.choice([0, 254, 255, 255, rng.randrange(256)])))
        ms.append(File(rng.choice([0, 0, 1, 2, 3, 4, 10, 20, 5, 209, 255, rng.randrange(256)]), rnd_s1(rng), rng.choice([None, None, b"", octets(rng, 7)]), fl))
    return ms
