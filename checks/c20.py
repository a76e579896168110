"""C20: product fields."""
from checks import metalib as m
from lib import core


def words(w):
    return [str(x) for x in w] if w and w[0] >= 0 else []


def run(c):
    rng = c.rng
    m.replay(c, "MCHeaderDeep" if c.thorough else "MCHeader", (4,))
    items = [(4, m.rnd_s4(rng)) for _ in range(c.n(1200, 20000))]
    items += [(4, m.rnd_s4(rng, t)) for t in m.PRODS for _ in range(c.n(6, 60))]
    items += [(4, m.rnd_s4(rng, t)) for t in (range(65536) if c.thorough else list(range(0, 300)) + list(range(990, 1110)))]
    m.check_payloads(c, items, "product section")
    m.check_files(c, [m.rnd_file(rng) for _ in range(c.n(250, 3000))], ["product"], "product")
    m.check_samples(c, ["product"])
    # surfaces
    cases = []
    for _ in range(c.n(1500, 20000)):
        sf = rng.choice([0, 1, -1, 2, 3, -3, 126, -126, -127, 127, rng.randrange(-127, 128), rng.randrange(-9, 10)])
        sv = rng.choice([0, 1, -1, 2, 10, 85000, 2147483647, -2147483647, -2147483646, 2147483646, 16777217, rng.randrange(-2147483647, 2147483648)])
        cases.append(dict(op="surface", t=len(cases) if len(cases) < 256 else rng.randrange(256), sf=sf, sv=sv))
    outs = core.run_driver(cases)
    c.count(len(cases))
    recs = []
    for x, o in zip(cases, outs):
        s = [x["t"], (128 - x["sf"]) if x["sf"] < 0 else x["sf"]] + list(((1 << 31 | -x["sv"]) if x["sv"] < 0 else x["sv"]).to_bytes(4, "big"))
        if "value" not in o:
            c.violation(f"surface {x}: observed {o}", {"case": x, "observed": o})
            o = {"value": [-1], "nan": False, "vnan": False, "snan": False, "unit": "", "d": ["", "", ""]}
        recs.append(dict(t="surface", s=s, unit=o["unit"], value=words(o["value"]), nan=o["nan"], vnan=o["vnan"], snan=o["snan"], text=[m.text(v) if i == 0 else ["text", v] for i, v in enumerate(o["d"])]))
    for i, e in m.validate(recs, min_shard=100):
        c.violation(f"surface type {cases[i]['t']} factor {cases[i]['sf']} value {cases[i]['sv']}: observed {outs[i]}", {"case": cases[i], "observed": outs[i]})


run.meta = dict(rule="every supported and some unsupported product templates at every length with every octet marked in turn, as emitted by MCHeader; random "
                     "sections, whole files, and fixed surfaces; fields compared with the positions Header gives for the template",
                assumptions=["the positions in Header were transcribed from the WMO templates", "the value of a surface whose scale factor is missing is not judged"])
