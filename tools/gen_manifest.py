#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "C01": "TLC: the reading machine delivers the closed-form tiling for every small file under every read schedule; tiling inverts encoding. Bound to the code by replaying every enumerated file and validating random large ones.",
    "C02": "TLC enumerates every section sequence up to 28 sections (36 thorough) that the grammar accepts so far with every wrong continuation; all replayed.",
    "C03": "TLC checks on the specification that every cut is an error and the prefix survives; every cut and field overwrite replayed on the code.",
    "C04": "TLC explores the reading machine under all schedules and faults; the code is run under schedules, interruptions and a fault at every single read and seek.",
    "C05": "TLC enumerates every operation history to a depth bound with invariants; all replayed, plus long random histories validated.",
    "C06": "TLC enumerates client histories over an open file (held decoders, kept submessages, partial draws, faults); replayed on the code against fresh reads; longer random histories validated.",
    "C07": "TLC packs and unpacks every small sequence of codes at every width and alignment; replayed; random parameters and long fields validated against exact rationals (2^-20 relative).",
    "C08": "TLC enumerates bitmaps with encoded counts below, at and above their ones; replayed item by item with announced counts; random and long bitmaps validated.",
    "C09": "TLC packs all small point sequences in all group splits, widths and missing-value managements and checks they decode back; replayed; random group tables and long fields validated.",
    "C10": "TLC applies and undoes differencing of both orders around missing points for all small sequences; replayed; random descriptors of 1-4 octets and long fields validated.",
    "C11": "TLC checks that run encoding of all small level sequences decodes back and announces its length; replayed; random bases, digits and wrong encodings validated.",
    "C12": "Images of known samples (all PNG depths, filters, interlacing; OpenJPEG streams of 1-24 bits) decoded by the code and validated against the packing specification.",
    "C13": "The specification says for arbitrary section contents whether an error is due and bounds the items; boundary values of every octet, every length and random contents validated.",
    "C14": "Every value of every selecting octet on valid fields of every packing, and every template number (thorough), validated against the specification's list of what is supported.",
    "C15": "TLC checks scanning against a declarative description for every shape to a bound in all modes; all replayed; large and degenerate shapes validated.",
    "C16": "Coordinates specified as exact rationals; all small grids of the model replayed, random ones validated within single precision.",
    "C17": "Latitudes validated by sign changes of the exact Legendre polynomial around each value; no trusted numerical algorithm.",
    "C18": "Specified definition string values, projected points and steps compared with what the code hands to a recording stand-in of the PROJ binding.",
    "C19": "TLC marks each octet of every header section in turn at every length; replayed; random sections, files and dates validated.",
    "C20": "TLC marks each octet of product sections of every template; replayed; random product sections, surfaces and times validated.",
    "C21": "Template lists of files and every lookup of every table validated against the specification and the stand-in tables' rows.",
    "C22": "TLC enumerates row sequences of common code tables; replayed through the real generator, whose output is parsed; random large tables validated.",
    "C23": "TLC enumerates load histories of code table files; replayed through the real generator; random files validated.",
    "C24": "TLC enumerates parameter tables; the real procedural macro expands them, the result is compiled and its variants and conversions are compared with the specification.",
    "C25": "TLC enumerates requests of the tool on files of the model; the real tool runs them and its outcome, words and files are compared with the library's answers.",
    "C26": "TLC enumerates every history of operations to the depth bound on a sequence iterator (what is left, taken and dropped fit together); replayed on iterators of every kind; random long histories validated.",
    "C27": "TLC enumerates grids with the answers due of builds with and without the feature; asked of four builds of the code (one for 32-bit WebAssembly); random files, fields, grids, headers, iterators and tool runs of the other builds validated by the same specifications.",
}
TECH = "TLA+ specification checked with TLC; behaviours replayed in the code and recorded runs validated against it"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i.lower()}.py"):
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick python3 -B check.py {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 -B check.py {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "model_checking",
                       "level_note": NOTE.get(i, "TLC-checked specification; generated behaviours replayed and recorded runs validated within the bounds in DESIGN.md. Trusts the driver's projection of results.")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness builds /repo's sources as they are, with stand-in code tables and a stand-in for the PROJ binding (harness/)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
