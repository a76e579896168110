"""Shared by the checks of the table generators (C22, C23)."""
import csv, io, os, shutil, tempfile
from lib import core


class Files:
    """Scratch directory with the files a check hands to the generator, one per distinct content."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="tables.", dir=core.BUILD)
        self.known = {}

    def put(self, name, data):
        """path of a file with this name (with extension) and content; data None: no such file"""
        k = (name, data)
        if k not in self.known:
            d = os.path.join(self.dir, str(len(self.known)))
            os.mkdir(d)
            p = os.path.join(d, name)
            if data is not None:
                with open(p, "wb") as f:
                    f.write(data)
            self.known[k] = p
        return self.known[k]

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def to_csv(header, rows, rng=None):
    q = csv.QUOTE_ALL if rng and rng.random() < .2 else csv.QUOTE_MINIMAL
    f = io.StringIO()
    w = csv.writer(f, quoting=q, lineterminator="\r\n" if rng and rng.random() < .3 else "\n")
    w.writerow(header)
    w.writerows(rows)
    return f.getvalue().encode()


FLAG = ["Title_en", "SubTitle_en", "CodeFlag", "Value", "MeaningParameterDescription_en", "Note_en", "UnitComments_en", "Status"]
C00 = ["GRIB version number", "BUFR version number", "CREX version number", "Effective date", "Status"]
C11 = ["CREX2", "GRIB2_BUFR4", "OriginatingGeneratingCentre_en", "Status"]


def flag_csv(rows, rng=None, order=None):
    """rows (code, text, title, subtitle)"""
    full = [[t, s, c, "", x, "n", "", "Operational"] for c, x, t, s in rows]
    if order:
        return to_csv([FLAG[i] for i in order], [[r[i] for i in order] for r in full], rng)
    return to_csv(FLAG, full, rng)


def cct_csv(name, rows, rng=None):
    if name == "C00":
        return to_csv(C00, [[c, "v", "w", x, "Operational"] for c, x in rows], rng)
    return to_csv(C11, [["00001", c, x, "Operational"] for c, x in rows], rng)


def chars(s):
    return [ord(x) for x in s]


def out(s):
    return s if isinstance(s, str) else "panic"


def tabs(v, title=True):
    if not isinstance(v, list) or any(not isinstance(x, list) or len(x) != 3 or not isinstance(x[2], list) for x in v):
        return [["unreadable", "", []]] if title else [["unreadable", []]]
    return [x if title else [x[0], x[2]] for x in v]


WORDS = ["Temperature", "Mass, total", "a \"quoted\" text", "back\\slash", "Reserve", "reserved", "Missing values", "été", "x", "{}", "Not used", "tab\there", "'", "Future version", "(", "空", "0", " padded "]
PLACES = ["Future versions", "Reserved", "Reserved for local use", "Reserved for other centres", "Missing", "Missing value", ")"]


def near(places):
    """texts that are nearly placeholders"""
    v = {"Reserve for local use", "Reserved for", "Reserved for other centers", "Local use", "()", "))", "( )"}
    for x in places:
        v |= {x + y for y in ("s", ".", " ", " (see Note 1)", " data", "x", ")", " value", "1")} | {y + x for y in (" ", "x", "Not ", "(", "Not yet ")}
        v |= {x.lower(), x.upper(), x.title(), x[:-1], x[1:], x + x, x.replace(" ", "  "), x.replace(" ", ""), x.replace(" ", "-")}
        if " " in x:
            v |= {x.partition(" ")[0], x.rpartition(" ")[2], x.rpartition(" ")[0]}
    return sorted(v - set(places) - {""})


NEAR = near(PLACES)
JUNK = ["", "Not applicable", "-", "4-", "-4", "x1", "A", " ", " 1", "1 ", "—", "9-3", "99999999999999999999999", "1–2"]


def rnd_rows(rng, big=False):
    """Rows of one table: mostly contiguous; sometimes with holes, overlaps, junk."""
    rows, nxt = [], 0
    for _ in range(rng.choice((0, 1, 2, 3, 5, 8, 12))):
        if rng.random() < .12:
            rows.append((rng.choice(JUNK), rng.choice(WORDS + PLACES)))
            continue
        k = rng.choice((1, 1, 1, 2, 3, rng.randrange(1, 40), 3000 if big else 5))
        a = nxt
        if rng.random() < .06:
            a = max(0, nxt + rng.choice((-2, -1, 1, 2, 5)))
        b = a + k - 1
        code = f"{a}" if k == 1 and rng.random() < .8 else f"{a}-{b}"
        if rng.random() < .05:
            code = code.replace("-", "-0") if "-" in code else "0" + code
        rows.append((code, rng.choice(PLACES) if rng.random() < .35 else rng.choice(NEAR) if rng.random() < .3 else rng.choice(WORDS)))
        nxt = b + 1
    return rows
