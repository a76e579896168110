"""C07: simple packing."""
import struct
from checks import declib as d
from checks import longlib as L
from lib import gribbytes as gb


def run(c):
    d.replay(c, "MCSimpleDeep" if c.thorough else "MCSimple", c.n(12000, 200000))
    rng = c.rng
    fs = []
    # every width at every number of values (so every alignment), extreme codes
    for nbit in range(33):
        for k in c.n([1, 2, 3, 8, 9, 17, 33], range(1, 34)):
            fs.append(d.simple(rng, nbit=nbit, npts=k, bitmap=False, extra=False))
    # parameters: signs of E and D, references
    for e in [0, 1, -1, 2, -2, 7, -7, 31, -32, 64, -64, 80, -80]:
        for dd in [0, 1, -1, 2, -2, 3, -3, 7, -7, 15, -15, 30, -30]:
            nbit = rng.choice([1, 4, 8, 12, 16, 24])
            ref = rng.choice([0.0, 0.0, 1.5, -2.0, 300.0, d.rnd_ref(rng)])
            k = rng.randrange(1, 6)
            s5 = d.s5_head(k, 0) + struct.pack(">f", ref) + gb.s(e, 2) + gb.s(dd, 2) + bytes([nbit, 0])
            fs.append(d.Field(k, s5, gb.pack(d.rnd_codes(rng, k, nbit), nbit), label=f"E {e} D {dd}"))
    # constant fields: exactly the announced number of points
    for n in [0, 1, 7, 8, 9, 100, 1000]:
        for extra in [b"", b"\x00", b"\xff\x12"]:
            s5 = d.s5_head(n, 0) + d.simple_params(rng, 0, wild=False)
            fs.append(d.Field(n, s5, extra, label="constant"))
    fs += [d.simple(rng) for _ in range(c.n(1500, 20000))]
    # long streams
    for _ in range(c.n(8, 60)):
        nbit = rng.randrange(1, 33)
        fs.append(d.simple(rng, nbit=nbit, npts=rng.randrange(300, 1500), bitmap=False))
    recs = d.check(c, fs, "simple packing", hints=7)
    c.sample({k: recs[40][k] for k in ("npts", "s5", "s7", "vals")})
    # long fields, and the sample files
    n = c.n(70001, 200003)
    L.check(c, [L.simple(rng, n, k) for k in ((rng.choice((1, 5, 12, 16)), rng.choice((0, 9, 23, 32))) if not c.thorough else (0, 1, 7, 12, 16, 23, 31, 32))])
    L.huge(c, [L.huge_constant(rng, k) for k in c.n((0x1000001,), (0x1000001, 0x2000003, 100000007))])
    L.check(c, L.some(c, L.sample_fields({0}), 8), c.n(4000, 300000), "sample file")


run.meta = dict(
    rule="fields of all widths 0..32 at many lengths, parameters with both signs of E and D, constant fields, random fields; "
         "every field the packer of MCPacking (simple) writes",
    assumptions=["values are compared up to 2^-20 relative to |R|*10^-D + |X*2^E|*10^-D (single-precision rounding)",
                 "|E| <= 80, |D| <= 30 (|E| <= 126, |D| <= 37 where they compensate each other) and finite R up to 2^80 for values; others only for count and termination"])
