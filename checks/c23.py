"""C23: GRIB2 code tables split and named by discipline and category."""
from checks import genlib as g
from lib import core


def rec(files, ids, o):
    return dict(t="flag", files=[dict(name=g.chars(n), good=good, rows=[[g.chars(a), b, t, g.chars(s)] for a, b, t, s in rows]) for n, good, rows in files],
                loads=[g.out(x) for x in o.get("loads", [])], list=g.tabs(o.get("text")), ids=ids, exports=[g.tabs(x) for x in o.get("exports", [])])


SUBERR = ["Product", "Product discipline", "Product discipline x", "Product discipline 256", "product discipline 0", "Discipline 0", "Product discipline 0, category 1",
          "Product discipline 0, parameter category", "Product discipline 0, parameter category x", "Product discipline 0, parameter category 300: x",
          "Product discipline  0", " ", "Product discipline 0,  parameter category 1", "Product discipline -1", "Product discipline 0: x", "parameter category 1"]
NAMES = ["GRIB2_CodeFlag_4", "GRIB2_Template_4_1", "GRIB2_CodeFlag", "CodeFlag_4_1", "grib2_CodeFlag_4_1_x", "GRIB2-CodeFlag-4-1", "GRIB2_CodeFlag_x_1_CodeTable", "GRIB2_CodeFlag_4_256_CodeTable_en",
         "GRIB2_CodeFlag_4_", "GRIB2_CodeFlag__4_1"]


def num(rng):
    return rng.choice((0, 1, 2, 3, 9, 10, 11, 19, 20, 99, 100, 191, 192, 255, rng.randrange(256)))


def subtitle(rng, pool):
    if rng.random() < .7 and pool:
        return rng.choice(pool)
    x = rng.random()
    if x < .15:
        s = ""
    else:
        d = num(rng)
        s = f"Product discipline {d:03d}" if rng.random() < .03 else f"Product discipline {d}"
        s += rng.choice(("", "", " - Meteorological products", " - x", " Space: weather"))
        if x > .45:
            s += f", parameter category {num(rng)}" + rng.choice((": temperature", "", ": a, b", " - x: y", ": x: y"))
    pool.append(s)
    return s


def rnd_file(rng, names):
    n = rng.choice(names) if names and rng.random() < .2 else f"GRIB2_CodeFlag_{num(rng)}_{num(rng)}" + rng.choice(("", "_CodeTable_en", "_0_0_CodeTable", "_x"))
    if rng.random() < .08:
        n = rng.choice(NAMES)
    names.append(n)
    pool, per, rows = [], {}, []
    for _ in range(rng.choice((0, 1, 3, 6, 12, 25))):
        s = subtitle(rng, pool)
        todo = per.setdefault(s, g.rnd_rows(rng))
        a, b = todo.pop(0) if todo else (rng.choice(("254", "7-9", "")), rng.choice(g.WORDS + g.PLACES))
        rows.append((a, b, f"Code table {rng.randrange(9)}.{rng.randrange(9)} - t", s))
    if rng.random() < .06 and rows:
        k = rng.randrange(len(rows))
        rows[k] = rows[k][:3] + (rng.choice(SUBERR),)
    order = rng.sample(range(8), 8) if rng.random() < .2 else None
    data, good = g.flag_csv(rows, rng, order), True
    x = rng.random()
    if x < .03:
        data, good = None, False
    elif x < .05:
        data, good = data.replace(b"CodeFlag", b"Code", 1), not rows
    elif x < .07 and rows:
        data, good = data.rstrip() + b",extra\n", False
    return (n, good, rows), data


def run(c):
    rng = c.rng
    fs = g.Files()
    try:
        r = core.tlc("MCTableFiles", "MCTableFilesDeep" if c.thorough else "MCTableFiles", workers=core.JOBS, mem="10g")
        c.note("histories_of_the_model", len(r.emitted))
        s = lambda x: "".join(map(chr, x))
        cases, want = [], []
        for e in r.emitted:
            paths = []
            for f in e["files"]:
                rows = [(s(a), b, t, s(u)) for a, b, t, u in f["rows"]]
                paths.append(fs.put(s(f["name"]) + ".csv", g.flag_csv(rows) if f["good"] else None))
            cases.append(dict(op="codeflag", paths=paths))
        outs = core.run_driver(cases, exe="gendriver")
        c.count(len(cases))
        for e, o in zip(r.emitted, outs):
            lst = [["CODE_TABLE_" + "_".join(map(str, i)), t, a] for i, t, a in e["list"]]
            ld = [g.out(x) for x in o.get("loads", [])]
            if g.tabs(o.get("text")) != lst or len(ld) != len(e["loads"]) or any(w != x and not (w == "any" and x in ("ok", "err")) for w, x in zip(e["loads"], ld)):
                show = [(s(f["name"]), f["good"], [(s(a), b, t, s(u)) for a, b, t, u in f["rows"]]) for f in e["files"]]
                c.violation(f"files {show}: specified {lst} {e['loads']} observed {o}", {"files": show, "specified": [lst, e["loads"]], "observed": o})
        e = r.emitted[len(r.emitted) // 2]
        c.sample({"files": [[s(f["name"]), f["good"], [[s(x[0]), s(x[3])] for x in f["rows"]]] for f in e["files"]], "list": e["list"]})
        todo = []
        for _ in range(c.n(700, 8000)):
            names, files, paths, ids = [], [], [], []
            for _ in range(rng.choice((1, 1, 2, 3, 5))):
                f, data = rnd_file(rng, names)
                files.append(f)
                paths.append(fs.put(f[0] + ".csv", data))
                w = f[0].split("_")
                if len(w) > 3 and w[2].isdigit() and w[3].isdigit() and int(w[3]) < 256:
                    ids += [[int(w[2]), int(w[3])] + [num(rng) for _ in range(k)] for k in range(3)]
                    for x in f[2][:3]:
                        p = [int(y) for y in "".join(ch if ch.isdigit() else " " for ch in x[3].partition(":")[0]).split()][:2]
                        if all(y < 256 for y in p):
                            ids.append([int(w[2]), int(w[3])] + p)
            todo.append((files, ids, dict(op="codeflag", paths=paths, ids=ids)))
        outs = core.run_driver([x[2] for x in todo], exe="gendriver")
        c.count(len(todo))
        recs = [rec(f, i, o) for (f, i, _), o in zip(todo, outs)]
        for i, e in core.validate("TraceTables", recs, min_shard=40):
            c.violation(f"files {str(todo[i][0])[:800]}: specified {str(e['want'])[:500]} observed {str(outs[i])[:500]}",
                        {"files": todo[i][0], "ids": todo[i][1], "specified": e["want"], "observed": outs[i]})
        for x in todo:
            c.seen(x[0])
    finally:
        fs.close()


run.meta = dict(rule="every history of loading files of the model (file names, unreadable files, subtitles, malformed subtitles, interleaved rows), and random histories of larger files; "
                     "names, titles, order and arrays of the generated text and single exports compared with the specification",
                assumptions=["file names of the scheme with something else than numbers up to 255 may be ignored or reported",
                             "disciplines and categories with signs, and discipline names with a comma, are not judged"])
run.packages = ["gendriver"]
