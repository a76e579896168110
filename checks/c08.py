"""C08: bitmaps."""
from checks import declib as d
from checks import longlib as L
from lib import gribbytes as gb


def bitmap_field(rng, npts, bits, pad, extra=0, kind="simple", more=0, bm=None):
    """the points with bit 1 have values 1, 2, 3, ... in order"""
    ones = sum(bits)
    octs = gb.pack(bits + [pad] * (-npts % 8), 1) + bytes([255 * pad]) * extra if bm is None else bm
    if kind == "simple":
        nbit = rng.choice([7, 8, 11, 16])
        s5 = d.s5_head(ones, 0) + d.simple_params(rng, nbit, ref=0.0, wild=False)
        s7 = gb.pack([(i + 1) % (1 << nbit) for i in range(ones + more)], nbit)
    elif kind == "constant":
        s5 = d.s5_head(ones, 0) + d.simple_params(rng, 0, ref=3.0, wild=False)
        s7 = b""
    elif kind == "complex":
        # one group of increments
        s5 = (d.s5_head(ones, 2) + d.simple_params(rng, 4, ref=0.0, wild=False) + bytes([1, 0]) + bytes(8) + gb.u(1 if ones else 0, 4)
              + bytes([9, 0]) + gb.u(0, 4) + b"\x01" + gb.u(ones, 4) + b"\x00")
        s7 = (gb.pack([3], 4) if ones else b"") + gb.pack([(i + 1) % 512 for i in range(ones)], 9)
    elif kind == "runlength":
        s5 = d.s5_head(ones, 200) + bytes([8]) + gb.u(200, 2) + gb.u(200, 2) + b"\x00" + b"".join(gb.u(k * 3, 2) for k in range(1, 201))
        s7 = bytes(i % 200 + 1 for i in range(ones))
    else:
        xs = [(i * 7 + 1) % 256 for i in range(ones)]
        s5 = d.s5_head(ones, 41) + d.simple_params(rng, 8, ref=0.0, wild=False)
        return d.Field(npts, s5, d.png(rng, ones, 1, 8, xs), 0, octs, {"k": "ok", "xs": [str(x) for x in xs]}, label="png")
    return d.Field(npts, s5, s7, 0, octs, label=f"{kind} bitmap {''.join(map(str, bits))[:60]}")


def run(c):
    d.replay(c, "MCBitmapDeep" if c.thorough else "MCBitmap", c.n(12000, 100000))
    rng = c.rng
    fs = []
    # all bitmaps of up to 9 (12) points, with either padding
    for npts in range(c.n(8, 12)):
        for m in range(1 << npts):
            b = [m >> i & 1 for i in range(npts)]
            if npts < 6 or c.thorough or rng.random() < .4:
                fs.append(bitmap_field(rng, npts, b, rng.randrange(2), rng.choice([0, 0, 1])))
    kinds = ["simple", "constant", "complex", "runlength", "png"]
    for npts in [0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 63, 64, 65, 200, 255, 256, 257]:
        for k in kinds:
            for _ in range(c.n(2, 12)):
                p = rng.choice([.05, .5, .5, .95])
                b = [int(rng.random() < p) for _ in range(npts)]
                if k == "png" and sum(b) == 0:
                    continue
                fs.append(bitmap_field(rng, npts, b, rng.randrange(2), rng.choice([0, 0, 1, 5]), k))
    # no bitmap, for all packings
    for npts in [0, 1, 5, 8, 9, 16, 31]:
        for k in kinds:
            if k == "png" and npts == 0:
                continue
            f = bitmap_field(rng, npts, [1] * npts, 1, 0, k)
            f.ind, f.bm = 255, b""
            fs.append(f)
            # more values than points
            if k == "simple":
                g = bitmap_field(rng, npts, [1] * npts, 1, 0, k, more=rng.randrange(1, 20))
                g.ind, g.bm = 255, b""
                fs.append(g)
    # bitmaps too short for the grid: an error
    for npts in [1, 8, 9, 16, 17, 24, 25, 100]:
        for short in range(1, min(4, (npts + 7) // 8) + 1):
            k = rng.choice(kinds)
            n = (npts + 7) // 8 - short
            fs.append(bitmap_field(rng, npts, [1] * npts, 1, 0, k, bm=rng.choice([b"\xff", b"\x00"]) * n))
    # values that run out
    for _ in range(c.n(60, 500)):
        npts = rng.randrange(2, 40)
        b = [rng.randrange(2) for _ in range(npts)]
        f = bitmap_field(rng, npts, b, 1)
        f.s7 = f.s7[:rng.randrange(len(f.s7) + 1)]
        fs.append(f)
    fs += [d.simple(rng, bitmap=True) for _ in range(c.n(400, 6000))]
    fs += [d.complex_(rng, bitmap=True) for _ in range(c.n(200, 4000))]
    d.check(c, fs, "bitmap")
    c.sample({"npts": fs[300].npts, "bitmap": fs[300].bm.hex(), "s5": fs[300].s5.hex(), "s7": fs[300].s7.hex()})
    # long fields
    n = c.n(66001, 150001)
    fs = [L.simple(rng, n, 9, True), L.complex_(rng, rng.choice((0, 1, 2)), rng.choice((0, 1, 2)), [rng.randrange(1, 9) for _ in range(n // 5)], bm=True), L.png(rng, n // 250, 250, 8, True)]
    L.check(c, fs if c.thorough else fs[:2])
    sizes = [8 << k for k in range(7, 14)]
    L.check(c, [L.sparse(rng, k + x, 300) for k in (sizes if c.thorough else (8 << 12, rng.choice(sizes))) for x in ((0, 1, 8, -1) if c.thorough else (0,))])
    L.check(c, L.some(c, [f for f in L.sample_fields({0, 2, 3, 200}) if f.ind == 0], 4), c.n(5000, 300000), "sample file")


run.meta = dict(
    rule="all bitmaps of small grids, random bitmaps of grids around multiples of 8, for every packing, with zero and one padding; "
         "bitmaps that are too short; fields the packer of MCPacking writes with bitmaps; the announced number after every item",
    assumptions=["when the data section holds fewer values than the bitmap has ones, only the items before that point are claimed"])
