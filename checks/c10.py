"""C10: spatial differencing."""
from checks import declib as d
from checks import longlib as L


def run(c):
    d.replay(c, "MCDiffDeep" if c.thorough else "MCDiff", c.n(25000, 250000))
    rng = c.rng
    fs = []
    for order in (1, 2):
        for octs in (1, 2, 3, 4):
            for m in (0, 1, 2):
                fs += [d.complex_(rng, diff=order, octets=octs, mgmt=m) for _ in range(c.n(70, 900))]
                fs += [d.complex_(rng, diff=order, octets=octs, mgmt=m, maxw=3, maxn=4) for _ in range(c.n(30, 300))]
    fs += [d.complex_(rng, diff=o, maxgroups=50) for o in (1, 2) for _ in range(c.n(15, 150))]
    for _ in range(c.n(100, 1000)):
        f = d.complex_(rng, diff=rng.choice([1, 2]))
        f.s7 = f.s7[:rng.randrange(len(f.s7) + 1)]
        fs.append(f)
    d.check(c, fs, "spatial differencing", hints=3)
    c.sample({"label": fs[10].label, "npts": fs[10].npts, "s5": fs[10].s5.hex(), "s7": fs[10].s7.hex()})
    # long fields, and the sample files
    fs = [L.complex_(rng, o, rng.randrange(3), lens) for o, lens in ((1, [3, 70000, 5]), (2, [rng.randrange(1, 3) for _ in range(66001)]))]
    L.check(c, fs)
    L.check(c, L.some(c, L.sample_fields({3}), 8), c.n(4000, 400000), "sample file")


run.meta = dict(
    rule="every field the packer of MCPacking writes with differencing of order 1 and 2 (all missing-point layouts of short sequences, "
         "negative values and minima, 1 and 2 octets); random groups with first values and minima of 1..4 octets, extreme magnitudes",
    assumptions=["reconstructed numbers stay below 2^62"])
