"""C24: enumerations generated from parameter tables."""
import json, os, shutil, subprocess, tempfile
from checks.genlib import chars
from lib import core

DOC = ["Temperature", "a b (c) d", "x|y", "Zonal \"flux\"", "été", "", "back\\slash"]


def build(tables, bad):
    """Enumerations for the tables, and the tables of bad that were rejected."""
    d = tempfile.mkdtemp(prefix="codegen.", dir=core.BUILD)
    try:
        env = core.cargo_env()
        env["GRIB_CASES"] = d
        env.pop("VERIF_TIER", None)

        def put(kind, items):
            for i, (text, _) in enumerate(items):
                with open(f"{d}/{kind}{i}", "wb") as f:
                    f.write(text)

        put("ok", tables)
        put("bad", bad)
        shape = "#[derive(Debug, Clone, Copy, dump_derive::Dump)] #[repr(u32)]"
        with open(d + "/ok.rs", "w") as f:
            for i in range(len(tables)):
                f.write(f'#[grib_codegen::parameter_codes(path = "{d}/ok{i}")] {shape} pub enum E{i} {{}}\n')
            # many small functions are quicker to compile than a large one
            for k in range(0, len(tables), 100):
                f.write(f"fn run{k}(out: &mut impl Write, p: &[&str]) {{\n" + "".join(f"show::<E{i}>(out, p[{i}]);\n" for i in range(k, min(k + 100, len(tables)))) + "}\n")
            f.write("fn run(out: &mut impl Write, p: &[&str]) {\n" + "".join(f"run{k}(out, p);\n" for k in range(0, len(tables), 100)) + "}\n")
        with open(d + "/bad.rs", "w") as f:
            for i in range(len(bad)):
                f.write(f'#[grib_codegen::parameter_codes(path = "{d}/bad{i}")] #[repr(u32)] pub enum B{i} {{}}\n')
        with open(d + "/probes", "w") as f:
            for _, p in tables:
                f.write(" ".join(map(str, p)) + "\n")
        outs, why = None, ""
        with core.locked("build"):
            if tables:
                p = subprocess.run(["cargo", "build", "--offline", "-q", "-p", "codegen-ok"], cwd=core.VERIF + "/harness", env=env, capture_output=True, text=True)
                if p.returncode != 0:
                    why = "\n".join(x for x in p.stderr.splitlines() if "/repo" not in x)[-1500:]
                else:
                    p = subprocess.run([core.BUILD + "/target/debug/codegen-ok", d + "/probes"], capture_output=True, text=True)
                    outs = [json.loads(x) for x in p.stdout.splitlines()]
                    if len(outs) != len(tables):
                        raise core.ToolError("codegen-ok: " + p.stderr[-500:])
            rejected, seen = [False] * len(bad), False
            if bad:
                p = subprocess.run(["cargo", "check", "--offline", "-q", "-p", "codegen-bad", "--message-format=json"], cwd=core.VERIF + "/harness", env=env, capture_output=True, text=True)
                for line in p.stdout.splitlines():
                    m = json.loads(line)
                    if m.get("reason") == "build-finished":
                        seen = True
                    if m.get("reason") != "compiler-message" or m["message"]["level"] != "error" or "codegen-bad" not in m["target"]["name"]:
                        continue
                    for s in m["message"]["spans"]:
                        while s:
                            if s["file_name"].endswith("/bad.rs"):
                                rejected[s["line_start"] - 1] = True
                            s = (s.get("expansion") or {}).get("span")
                if not seen and p.returncode not in (0, 101):
                    raise core.ToolError("codegen-bad: " + p.stderr[-500:])
        return outs, rejected, why
    finally:
        shutil.rmtree(d, ignore_errors=True)


def code(d, k, n):
    return d << 16 | k << 8 | n


def probes(rng, codes, full=False):
    if full:
        return ["*"] + [x | 1 << 24 for x in codes] + [2**32 - 1]
    p = {0, 2**32 - 1, 2**31, *[rng.randrange(2**24) for _ in range(10)]}
    for x in codes:
        p |= {x, x ^ 1, x ^ 256, x ^ 65536, x ^ 128, x ^ 32768, x | 1 << 24, x + 1, x + 256, (x & 255) << 8 | x >> 8 & 255 | x & 0xff0000, x & 0xffff, (x + 65536) % 2**32}
    return sorted(p)


def rnd_table(rng):
    names, lines, owner = [], [], {}
    al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcxyz0123456789_-"
    for _ in range(rng.choice((1, 2, 5, 20, 60))):
        a = "".join(rng.choice(al) for _ in range(rng.choice((1, 2, 4, 8))))
        names += [a] + ([a.replace("-", "_")] if rng.random() < .3 else [])
    small = rng.random() < .6
    num = lambda: rng.randrange(4) if small else rng.choice((0, 1, 2, 10, 191, 192, 254, 255, rng.randrange(256)))
    for _ in range(rng.choice((1, 3, 10, 30, 80))):
        if lines and rng.random() < .1:
            lines.append(rng.choice(lines))
            continue
        k = code(num(), num(), num())
        a = owner.setdefault(k, rng.choice(names))
        z = lambda x: f"{x:03d}" if rng.random() < .03 else str(x)
        lines.append(":".join([z(k >> 16), rng.choice(("0", "1", "", "x")), z(rng.randrange(256)), z(rng.randrange(256)), z(rng.choice((0, 7, 255, 65535))), z(rng.randrange(256)),
                               z(k >> 8 & 255), z(k & 255), a, rng.choice(DOC), rng.choice(("K", "", "%", "kg/m^2"))]) + rng.choice(("", "", "", " ", "\t")))
    return lines, sorted(owner)


def spoil(rng, lines):
    lines = list(lines)
    i = rng.randrange(len(lines))
    f = lines[i].rstrip().split(":")
    x = rng.randrange(6)
    if x == 0:
        lines.insert(i, rng.choice(("", " ", "\t", "# comment", ":", "::::::::::")))
    elif x == 1:
        lines[i] = ":".join(f[:rng.randrange(1, 11)])
    elif x == 2:
        f[rng.choice((0, 2, 3, 5, 6, 7))] = rng.choice(("256", "-1", "1.0", "", " 1", "1 ", "x", "0x1", "1000", "99999999999999999999"))
        lines[i] = ":".join(f)
    elif x == 3:
        f[4] = rng.choice(("65536", "-1", "", "x", " 7"))
        lines[i] = ":".join(f)
    elif x == 4:
        del f[rng.randrange(len(f))]
        lines[i] = ":".join(f)
    else:
        lines[i] = ":" + lines[i]
    return lines


def text(rng, lines):
    nl = "\r\n" if rng.random() < .15 else "\n"
    return (nl.join(lines) + (nl if rng.random() < .8 or lines[-1] == "" else "")).encode()


def run(c):
    rng = c.rng
    r = core.tlc("MCCodegen", "MCCodegenDeep" if c.thorough else "MCCodegen", workers=core.JOBS, mem="8g")
    s = lambda x: "".join(map(chr, x))
    c.note("tables_of_the_model", len(r.emitted))
    items = []  # lines, text, probes, model's answer
    for e in r.emitted:
        lines = [s(l) for l in e["lines"]]
        codes = [a << 16 | b for (a, b), _ in e["conv"]]
        items.append((lines, ("\n".join(lines) + "\n").encode(), probes(rng, codes), e))
    for k in range(c.n(250, 2500)):
        lines, codes = rnd_table(rng)
        items.append((lines, text(rng, lines), probes(rng, codes, full=k < c.n(6, 60)), None))
        if rng.random() < .8:
            l2 = spoil(rng, lines)
            items.append((l2, text(rng, l2), None, None))
    ok = [x for x in items if x[2] is not None and not (x[3] and x[3]["rejected"])]
    # all tables are asked whether they are rejected, the good ones also for what they give
    step = 4000
    recs, shown = [], []
    for k in range(0, len(ok), step):
        part = ok[k:k + step]
        outs, _, why = build([(x[1], x[2]) for x in part], [])
        if outs is None:
            # find out which: the check of all tables below says it if one was rejected
            c.violation("enumerations of well-formed tables do not compile: " + why, {"error": why, "tables": [x[0] for x in part[:20]]})
            continue
        for x, o in zip(part, outs):
            recs.append(dict(t="enum", lines=[chars(l) for l in x[0]], variants=[[chars(n), a, b] for n, a, b in o["variants"]], map=[[a, b, chars(n)] for a, b, n in o["map"]]))
            shown.append((x, o))
            if x[3]:
                m = {(a << 16 | b, s(n)) for (a, b), n in x[3]["conv"]}
                v = sorted([s(n), a, b] for n, (a, b) in x[3]["first"])
                if sorted(o["variants"]) != v or {(a << 16 | b, n) for a, b, n in o["map"]} != m:
                    c.violation(f"table {x[0]}: specified {v} {sorted(m)} observed {o}", {"table": x[0], "specified": x[3], "observed": o})
    judge = items if not c.thorough else [x for x in items if x[2] is None or (x[3] and x[3]["rejected"])] + ok[:3000]
    _, rej, _ = build([], [(x[1], None) for x in judge])
    for x, b in zip(judge, rej):
        recs.append(dict(t="error", lines=[chars(l) for l in x[0]], rejected=b))
        shown.append((x, {"rejected": b}))
        if x[3] and b != x[3]["rejected"]:
            c.violation(f"table {x[0]}: rejected {b}", {"table": x[0], "observed": b})
    c.count(len(recs))
    for x in items:
        c.seen(x[0])
    # the model's own tables were compared above
    keep = [i for i, (x, _) in enumerate(shown) if x[3] is None or i % 10 == 0]
    for i, e in core.validate("TraceCodegen", [recs[j] for j in keep], min_shard=40):
        x, o = shown[keep[i]]
        c.violation(f"table {x[0]}: specified {str(e['want'])[:400]} observed {str(o)[:400]}", {"table": x[0], "specified": e["want"], "observed": o})
    c.sample({"table": ok[-1][0][:5]})
    c.note("rejected", sum(rej))


run.meta = dict(rule="every table of the model and random larger ones compiled into enumerations with the attribute of the library; their variants and discriminants (read by a derive macro), "
                     "the conversion of the tables' codes and their neighbours (of all 2^24 codes for some tables), and the tables rejected, compared with the specification",
                assumptions=["tables in which two abbreviations share a code or differ only by hyphen and underscore, abbreviations that cannot be made identifiers, and numbers with signs are not judged"])
run.packages = ["dump-derive"]
