"""C11: run lengths."""
from checks import declib as d
from checks import longlib as L


def run(c):
    d.replay(c, "MCRunLengthDeep" if c.thorough else "MCRunLength", c.n(20000, 200000))
    rng = c.rng
    fs = [d.runlength(rng, True) for _ in range(c.n(1500, 20000))]
    fs += [d.runlength(rng, True, nbit=n) for n in range(1, 17) for _ in range(c.n(20, 200))]
    fs += [d.runlength(rng, False) for _ in range(c.n(1200, 15000))]
    d.check(c, fs, "run lengths", hints=3)
    c.sample({"label": fs[10].label, "npts": fs[10].npts, "s5": fs[10].s5.hex(), "s7": fs[10].s7.hex()})
    L.huge(c, [L.huge_runs(rng, [5, (1 << 24) + rng.randrange(2, 30), 3, 70000, 1], rng.choice([4, 8, 11]), rng.choice([3, 7])),
               L.huge_runs(rng, [1, 65535, 65536, 65537, 1, 1, 5000000, 9], rng.choice([8, 16]), rng.choice([100, 200]))])
    # long fields, and the sample files
    fs = [L.runlength(rng, c.n(150000, 400000), 8, 100, 70000), L.runlength(rng, 90000, 4, 3, 9), L.runlength(rng, 70000, 16, 300, 66000)]
    L.check(c, fs if c.thorough else fs[:2])
    L.check(c, L.some(c, L.sample_fields({200}), 3), c.n(20000, None), "sample file")


run.meta = dict(
    rule="every field the packer of MCPacking writes with run lengths; random codes of all widths 1..16 and maximum levels, all "
         "scale factors; code sequences that do not add up, start with a digit or use unlisted levels",
    assumptions=["fewer than 8 bits left over after the last point are padding if they are zero; left open if not"])
