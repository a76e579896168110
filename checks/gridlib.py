"""Shared by the checks of grids (C14-C18): definitions, their files, records for TraceGrid."""
import struct
from lib import core
from lib import gribbytes as gb

ALL = ("shape", "ij", "latlons", "proj")


def st(x):
    return str(x)


def run_rec(r):
    """an index or coordinate run of the driver"""
    return dict(res={"k": r["res"]["k"], "e": r["res"].get("e", "-")}, hints=[[st(a), st(b)] for a, b in r.get("hints", [])],
                fused=r.get("fused", False), word=32 if core.is_32bit() else 64)


def ij_rec(r, clone):
    d = run_rec(r)
    d.update(ij=[[st(a), st(b)] for a, b in r.get("ij", [])], tail=[[st(a), st(b)] for a, b in r.get("tail", [])], clone=clone)
    return d


def words(w):
    return [st(x) for x in w]


class Def:
    """A grid definition section's payload."""

    def __init__(self, payload, label=""):
        self.p, self.label = bytes(payload), label

    def file(self, s7=b"", npts=None):
        return gb.msg([gb.s1(), gb.sect(3, self.p), gb.s4(), gb.s5(0, 0, gb.t_simple(nbit=0)), gb.s6(), gb.s7(s7)])


def payload(tmpl, body, npts, src=0, nlist=0, interp=0, lst=b""):
    return bytes([src]) + gb.u(npts, 4) + bytes([nlist, interp]) + gb.u(tmpl, 2) + body + lst


def latlon(ni, nj, npts=None, tmpl=0, **kw):
    return Def(payload(tmpl, gb.g_latlon(ni, nj, **kw), (ni * nj) % (1 << 32) if npts is None else npts), f"{tmpl} {ni}x{nj} {kw}")


def projected(tmpl, ni, nj, lat1=0, lon1=0, lad=0, lov=0, dx=1000, dy=1000, centre=0, scan=64, latin1=0, latin2=0, ea=None, flags=0x30, npts=None, tail=None):
    b = ((ea or gb.earth()) + gb.u(ni, 4) + gb.u(nj, 4) + gb.s(lat1, 4) + gb.s(lon1, 4) + bytes([flags]) + gb.s(lad, 4) + gb.s(lov, 4)
         + gb.u(dx, 4) + gb.u(dy, 4) + bytes([centre, scan]))
    if tmpl == 30:
        b += gb.s(latin1, 4) + gb.s(latin2, 4) + gb.s(-90000000, 4) + gb.s(0, 4)
    return Def(payload(tmpl, b, (ni * nj) % (1 << 32) if npts is None else npts),
               f"{tmpl} {ni}x{nj} first {lat1},{lon1} lad {lad} lov {lov} dx {dx} dy {dy} centre {centre} scan {scan} latin {latin1},{latin2}")


def split_def(text):
    return [[w.lstrip("+").partition("=")[0], w.lstrip("+").partition("=")[2]] for w in text.split()]


def check(c, defs, look, what, opts=None, timeout=60):
    """What the real code says about the grids of one-field files, held against Grid."""
    opts = opts or [{}] * len(defs)
    cases, recs = [], []
    for d, o in zip(defs, opts):
        case = dict(op="gridfile", data=d.file().hex(), cap=o.get("cap", 3000))
        if o.get("clone") is not None:
            case["clone_at"] = o["clone"]
        if o.get("fail"):
            case["proj_fail"] = o["fail"]
        cases.append(case)
    outs = core.run_driver(cases, timeout=timeout)
    c.count(len(defs))
    for d, o, case, out in zip(defs, opts, cases, outs):
        clone = o.get("clone") if o.get("clone") is not None else -1
        r = dict(t="file", p=list(d.p), cap=case["cap"], look=list(look), projfail=bool(o.get("fail")), feature=core.has_proj())
        ok = out.get("open", {}).get("k") == "ok" and len(out.get("subs", [])) == 1
        if not ok:
            k = out.get("open", {}).get("k", "crash")
            bad = {"res": {"k": k if k not in ("ok", "err") else "unopened"}}
            s = dict(shape=bad, name="?", ij=bad, latlons=bad, proj={"defs": []})
        else:
            s = out["subs"][0]
        r["shape"] = {"res": {"k": s["shape"]["res"]["k"]}, "shape": words(s["shape"].get("shape", []))}
        r["name"] = s["name"]
        r["ij"] = ij_rec(s["ij"], clone)
        ll = run_rec(s["latlons"])
        ll.update(pts=[words(x) for x in s["latlons"].get("pts", [])], tail=[words(x) for x in s["latlons"].get("tail", [])], clone=clone)
        r["latlons"] = ll
        r["defs"] = [split_def(x) for x in s["proj"]["defs"]]
        recs.append(r)
    for r in recs[:200]:
        c.seen(r["p"])
    for i, e in core.validate("TraceGrid", recs, min_shard=10):
        s = outs[i].get("subs", [outs[i]])[0]
        pts = [[struct.unpack(">f", int(x).to_bytes(4, "big"))[0] if int(x) >= 0 else None for x in q] for q in recs[i]["latlons"]["pts"][:12]]
        c.violation(f"{what} {defs[i].label}: section 3 payload {defs[i].p.hex()} look {list(look)}: specified {e['want']} observed shape {s.get('shape')} "
                    f"ij {str(s.get('ij'))[:150]} coordinates {recs[i]['latlons']['res']} {pts} projections {s.get('proj', {}).get('defs')}",
                    {"case": cases[i], "specified": e["want"], "observed": outs[i]})
    return recs


def check_ij(c, cases, what):
    """Index iterators of grids given by shape and mode."""
    jobs = [dict(op="ij", **x) for x in cases]
    outs = core.run_driver(jobs)
    c.count(len(jobs))
    recs = [dict(t="ij", ni=st(x["ni"]), nj=st(x["nj"]), mode=x["mode"], cap=x["cap"], run=ij_rec(o, x.get("clone_at", -1))) for x, o in zip(cases, outs)]
    for r in cases[:200]:
        c.seen(r)
    for i, e in core.validate("TraceGrid", recs, min_shard=10):
        c.violation(f"{what}: {cases[i]}: observed {str(outs[i])[:400]}", {"case": jobs[i], "observed": outs[i]})


def check_long(c, defs, look, what, npos=24):
    """Grids of many points, judged at some positions of their sequences."""
    rng = c.rng
    cases, recs = [], []
    for d in defs:
        n = int.from_bytes(d.p[1:5], "big")
        ni, nj = (int.from_bytes(d.p[x:x + 4], "big") for x in (25, 29))
        pos = {0, 1, 255, 256, 32767, 65535, 65536, 65537, n - 1, n - 2, n // 2, ni - 1, ni, ni + 1, 2 * ni, nj - 1, nj, nj + 1, 1 << 24, (1 << 24) + 1}
        pos |= {rng.randrange(max(n, 1)) for _ in range(npos)}
        for k in range(4):  # ends of rows far on
            for m in (ni, nj):
                if m:
                    q = rng.randrange(max(n // m, 1)) * m
                    pos |= {q, q - 1, q + m - 1}
        at = sorted(x for x in pos if 0 <= x < n)
        cases.append(dict(op="gridsparse", data=d.file().hex(), at=at, max=n + 2, look=list(look)))
    outs = core.run_driver(cases, timeout=300)
    c.count(sum(len(x["at"]) for x in cases))
    for d, case, o in zip(defs, cases, outs):
        def run(r):
            r = r or {"res": {"k": o.get("open", {}).get("k", "crash") if o.get("open", {}).get("k") == "panic" else "unopened"}}
            return dict(res={"k": r["res"]["k"]}, total=st(r.get("total", 0)), items=[words(x) for x in r.get("items", [])], hints=[words(x) for x in r.get("hints", [])])
        recs.append(dict(t="long", p=list(d.p), at=[st(x) for x in case["at"]], look=list(look), feature=core.has_proj(), ij=run(o.get("ij")), latlons=run(o.get("latlons"))))
        c.seen([list(d.p), case["at"]])
    for i, e in core.validate("TraceGrid", recs, min_shard=1):
        o = dict(outs[i])
        pts = [[struct.unpack(">f", int(x).to_bytes(4, "big"))[0] if int(x) >= 0 else None for x in q] for q in recs[i]["latlons"]["items"]]
        c.violation(f"{what} {defs[i].label}: section 3 payload {defs[i].p.hex()} look {list(look)} positions {cases[i]['at']}: specified {e['want']} observed "
                    f"ij {str(o.get('ij'))[:600]} coordinates {recs[i]['latlons']['res']} total {recs[i]['latlons']['total']} {pts[:30]}",
                    {"case": cases[i], "specified": e["want"], "observed": o})


def sample_defs(tmpls):
    from checks import longlib
    return [Def(p, f"of {n}") for n, p in longlib.sample_grids() if int.from_bytes(p[7:9], "big") in tmpls]
