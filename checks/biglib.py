"""Files beyond 2^32 octets (sparse) and the whole sample files, held against TraceBig."""
import os, shutil, tempfile
from checks import declib as d, longlib as L
from lib import core
from lib import gribbytes as gb


class Sparse:
    """Octets at places of a file whose holes are zeros."""

    def __init__(self):
        self.parts, self.at = [], 0

    def put(self, b):
        self.parts.append((self.at, b))
        self.at += len(b)

    def skip(self, n):
        self.at += n

    def write(self, path):
        with open(path, "wb") as f:
            for o, b in self.parts:
                f.seek(o)
                f.write(b)
            f.truncate(self.at)


HUGE = [2**32 - 1, 2**31, 2**31 - 1, 2**31 + 5, 3 * 10**9, 2**24, 2**16]


def message(rng, s, fields, huge):
    """A message of small fields (declib), and, instead of some, a field with a huge data section (its size) or bitmap."""
    sections = [("b", gb.s1())]
    for f, h in zip(fields, huge):
        sections += [("b", gb.s3_latlon(max(f.npts, 1), 1, npts=f.npts)), ("b", gb.s4()), ("b", gb.sect(5, f.s5))]
        if h and rng.random() < .3:
            hb = rng.choice([2**16, 2**16 + 6, 2**24 + 1])  # bitmaps are read as a whole
            sections += [("b", gb.u(hb, 4) + b"\6\xff"), ("h", hb - 6)]
        else:
            sections += [("b", gb.s6(f.ind, f.bm))]
        sections += [("b", gb.u(h, 4) + b"\7"), ("h", h - 5)] if h else [("b", gb.s7(f.s7))]
    total = 16 + sum(len(x) if k == "b" else x for k, x in sections) + 4
    s.put(b"GRIB\0\0\0\2" + gb.u(total, 8))
    for k, x in sections:
        s.put(x) if k == "b" else s.skip(x)
    s.put(b"7777")


def check(c, sparse, whole):
    """sparse: number of sparse files; whole: sample files too"""
    rng = c.rng
    tmp = tempfile.mkdtemp(prefix="big.", dir=core.BUILD)
    try:
        cases, fields = [], []
        for k in range(sparse):
            s = Sparse()
            s.put(gb.rnd_gap(rng))
            starts, fs, dec = [0], [], []
            for m in range(rng.choice([2, 3])):
                part = [d.simple(rng, bitmap=True, npts=rng.randrange(1, 30), extra=False) for _ in range(rng.randrange(1, 4))]
                huge = [rng.choice(HUGE) if rng.random() < .6 and m < 2 else 0 for _ in part]
                if k == 0 and m == 0:
                    huge[0] = HUGE[0]
                if k == 1 and m == 0:
                    huge = [2**31 + 5] * len(part)
                message(rng, s, part, huge)
                dec += [h == 0 for h in huge]
                fs += part
                starts.append(s.at)
                s.put(gb.rnd_gap(rng))
            path = f"{tmp}/{k}.grib2"
            s.write(path)
            want = [i for i, x in enumerate(dec) if x]
            cases.append(dict(op="bigfile", path=path, start=0, decode=want))
            fields.append([fs[i] for i in want])
            for st in rng.sample(starts, 1):
                cases.append(dict(op="bigfile", path=path, start=st, decode=[]))
                fields.append([])
        if whole:
            for k, (name, data) in enumerate(L.samples().items()):
                path = f"{tmp}/s{k}.grib2"
                with open(path, "wb") as f:
                    f.write(data)
                cases.append(dict(op="bigfile", path=path, start=0, decode=[]))
                fields.append([])
        outs = core.run_driver(cases, jobs=4)
        c.count(len(cases))
        recs = [dict(path=x["path"], start=str(x["start"]), items=o.get("items", []), listed=o.get("listed", []), subs=o.get("subs", [])) for x, o in zip(cases, outs)]
        for i, e in core.validate("TraceBig", recs):
            c.violation(f"large file: section {e['at']} specified {e['want']} observed {(recs[i]['items'] + [None])[min(e['at'], len(recs[i]['items']))]} "
                        f"listed {str(recs[i]['listed'])[:200]} submessages {str(recs[i]['subs'])[:200]}", {"case": cases[i], "specified": e["want"], "observed": str(outs[i])[:2000]})
        recs, who = [], []
        for x, o, fs in zip(cases, outs, fields):
            vs = o.get("vals", [])
            for n, f in enumerate(fs):
                v = vs[n] if len(vs) == len(fs) else {"res": {"k": "absent"}}
                r = dict(npts=f.npts, ind=f.ind, bm=list(f.bm), s5=list(f.s5), s7=list(f.s7), img=f.img, n=0, vals=[], hints=[], after=[], faults=0, res={"k": v["res"]["k"]})
                if "vals" in v:
                    r.update(n=v["n"], vals=[str(y) for y in v["vals"]])
                recs.append(r)
                who.append((x, n))
        for i, e in core.validate("TraceDecode", recs, min_shard=10):
            c.violation(f"submessage {who[i][1]} of a large file: specified {str(e['want'])[:200]} observed {recs[i]['res']} {d.floats(recs[i]['vals'][:20])}",
                        {"case": who[i][0], "specified": e["want"], "observed": recs[i]})
        c.note("large_files", len(cases))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
