"""C22: arrays of the generated tables."""
from checks import genlib as g
from lib import core


def rec(files, o):
    return dict(t="cct", files=[dict(name=n, good=good, rows=[[g.chars(a), b] for a, b in rows]) for n, good, rows in files],
                loads=[g.out(x) for x in o.get("loads", [])], list=g.tabs(o.get("text"), False), exports=[g.tabs(x, False) for x in o.get("exports", [])])


def run(c):
    rng = c.rng
    fs = g.Files()
    try:
        # every sequence of rows of the model, as C-11 and (those with at most 2 rows) as C-0
        r = core.tlc("MCTables", "MCTablesDeep" if c.thorough else "MCTables", workers=core.JOBS, mem="8g")
        todo = [(n, e) for e in r.emitted for n in ("C11", "C00") if n == "C11" or len(e["rows"]) < 3]
        c.note("row_sequences_of_the_model", len(r.emitted))
        lines = [(n, [("".join(map(chr, a)), b) for a, b in e["rows"]], e) for n, e in todo]
        cases = [dict(op="cct", paths=[fs.put(n + ".csv", g.cct_csv(n, rows))]) for n, rows, e in lines]
        outs = core.run_driver(cases, exe="gendriver")
        c.count(len(cases))
        for (n, rows, e), case, o in zip(lines, cases, outs):
            got = g.tabs(o.get("text"), False)
            if o.get("loads") != ["ok"] or got != [[f"COMMON_CODE_TABLE_{n[1:]}", e["array"]]]:
                c.violation(f"rows {rows} of {n}: specified {e['array']} observed {got} {o.get('loads')}", {"rows": rows, "file": n, "specified": e["array"], "observed": o})
        c.sample({"rows": lines[len(lines) // 2][1], "array": lines[len(lines) // 2][2]["array"]})
        # every placeholder and every text that nearly is one, between texts
        todo = []
        for x in g.NEAR + g.PLACES:
            for n in ("C00", "C11"):
                rows = [("0", "first"), ("1", x), ("2-3", x), ("4", "last"), ("5", x)]
                todo.append(([(n, True, rows)], dict(op="cct", paths=[fs.put(n + ".csv", g.cct_csv(n, rows))])))
        # random larger files, several of them, some broken
        for _ in range(c.n(700, 8000)):
            files, paths = [], []
            for _ in range(rng.randrange(1, 4)):
                n = rng.choice(("C00", "C11", "C11", "C12", "c11", "C011"))
                rows = g.rnd_rows(rng, big=rng.random() < .02)
                real = n if n in ("C00", "C11") else "C11"
                data, good = g.cct_csv(real, rows, rng), True
                x = rng.random()
                if x < .05:
                    data, good = None, False
                elif x < .08:
                    data, good = data.replace(b"Effective date", b"Date").replace(b"GRIB2_BUFR4", b"GRIB2"), not rows
                elif x < .11 and rows:
                    data, good = data.rstrip() + b",extra,fields\n", False
                elif x < .13 and rows:
                    data, good = data.rstrip() + (b"\n1,\xff\xfe,x,y,z\n" if real == "C00" else b"\n0,1,\xff\xfe,x\n"), False
                files.append((n, good, rows))
                paths.append(fs.put(n + ".csv", data))
            todo.append((files, dict(op="cct", paths=paths)))
        outs = core.run_driver([x for _, x in todo], exe="gendriver")
        c.count(len(todo))
        recs = [rec(f, o) for (f, _), o in zip(todo, outs)]
        for i, e in core.validate("TraceTables", recs, min_shard=40):
            c.violation(f"files {todo[i][0]}: specified {str(e['want'])[:400]} observed {str(outs[i])[:400]}", {"files": todo[i][0], "specified": e["want"], "observed": outs[i]})
        for x in todo:
            c.seen(x[0])
    finally:
        fs.close()


run.meta = dict(rule="every sequence of rows (eleven codes and ranges, text or placeholder) up to the model's length, and random files with long tables, holes, overlaps, junk and broken CSV; "
                     "the generated text is parsed and its arrays compared with the specification's",
                assumptions=["codes followed by something else than a hyphen and a number are not judged unless they are no codes at all"])
run.packages = ["gendriver"]
