"""C09: complex packing."""
from checks import declib as d
from checks import longlib as L


def run(c):
    d.replay(c, "MCComplexDeep" if c.thorough else "MCComplex", c.n(20000, 200000))
    rng = c.rng
    fs = [d.complex_(rng, diff=0) for _ in range(c.n(2500, 30000))]
    fs += [d.complex_(rng, diff=0, mgmt=m, maxw=w, maxn=n) for m in (0, 1, 2) for w in (1, 2, 3, 8, 17) for n in (1, 2, 3, 8, 24)
           for _ in range(c.n(5, 40))]
    fs += [d.complex_(rng, diff=0, maxgroups=60) for _ in range(c.n(40, 400))]
    # truncated data sections, short tables
    for _ in range(c.n(150, 1500)):
        f = d.complex_(rng, diff=0)
        f.s7 = f.s7[:rng.randrange(len(f.s7) + 1)]
        fs.append(f)
    d.check(c, fs, "complex packing", hints=3)
    c.sample({"label": fs[10].label, "npts": fs[10].npts, "s5": fs[10].s5.hex(), "s7": fs[10].s7.hex()})
    L.huge(c, [L.huge_groups(rng, [3, rng.randrange(1, 4000), rng.choice([70000, 5000000]), 12, (1 << 24) + rng.randrange(1, 300)], m) for m in (0, 1, 2)]
           + [L.huge_groups(rng, [(1 << 24) + rng.randrange(3), 5, 66000], m) for m in c.n((rng.randrange(3),), (0, 1, 2))])
    # long fields, and the sample files
    fs = [L.complex_(rng, 0, m, lens) for m, lens in ((rng.randrange(3), [rng.randrange(1, 3) for _ in range(66001)]), (rng.randrange(3), [3, 70000, 5]))]
    L.check(c, fs)
    L.check(c, L.some(c, L.sample_fields({2}), 4), c.n(4000, 400000), "sample file")


run.meta = dict(
    rule="every field the packer of MCPacking writes with groups (all splits of all short point sequences, all managements, constant groups "
         "with and without increments); random groups, table widths 0..5, reference widths 0..32, group widths 0..32",
    assumptions=["group and table widths up to 32 bits (wider ones are left open)",
                 "constant groups with a reference width of 0 and missing-value management are left open"])
