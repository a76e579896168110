"""C12: images."""
from checks import declib as d
from checks import longlib as L
from lib import core


def j2k_fields(c, n):
    rng = c.rng
    jobs = d.j2k_cases(rng, n)
    outs = core.encode(jobs)
    fs = []
    for j, o in zip(jobs, outs):
        if "j2k" not in o:
            continue
        k = j["w"] * j["h"]
        npts, bm, ind = k, b"", 255
        if rng.random() < .2:
            b = [1] * k + [0] * rng.randrange(0, 12)
            rng.shuffle(b)
            npts, bm, ind = len(b), d.gb.pack(b, 1), 0
        fs.append(d.Field(npts, d.s5_head(k, 40) + d.simple_params(rng, j["prec"], wild=False), bytes.fromhex(o["j2k"]), ind, bm,
                          {"k": "ok", "xs": [str(v) for v in j["vals"]]}, label=f"j2k {j['w']}x{j['h']} {j['prec']} bits"))
    return fs


def run(c):
    rng = c.rng
    fs = []
    for depth in (1, 2, 4, 8, 16):
        for w in range(1, c.n(18, 34)):
            for h in (1, 2, 3):
                fs.append(d.png_field(rng, depth=depth, w=w, h=h))
    # pixels of 24 and 32 bits; images of kinds WMO does not use
    for color, depth in ((2, 8), (6, 8)):
        for w in range(1, c.n(12, 34)):
            fs += [d.png_field(rng, color=color, depth=depth, w=w, h=h) for h in (1, 2, 3)]
    for color, depth in ((2, 16), (6, 16), (4, 8), (4, 16), (3, 1), (3, 2), (3, 4), (3, 8)):
        fs += [d.png_field(rng, color=color, depth=depth, nbit=rng.choice([1, 8, 16, 24, 32]), bitmap=False) for _ in range(c.n(4, 40))]
    fs += [d.png_field(rng) for _ in range(c.n(500, 8000))]
    fs += [d.png_field(rng, depth=16, w=rng.randrange(20, 60), h=rng.randrange(10, 40)) for _ in range(c.n(5, 50))]
    js = j2k_fields(c, c.n(250, 3000))
    c.note("jpeg2000_images", len(js))
    fs += js
    # width 0: constant, whatever the data section holds
    for t in (40, 41):
        for n in (0, 1, 7, 8, 30):
            for data in (b"", b"\x00\x01", rng.randbytes(20)):
                fs.append(d.Field(n, d.s5_head(n, t) + d.simple_params(rng, 0, wild=False), data, label="constant"))
    # not an image
    bad = {"k": "bad", "xs": []}
    for _ in range(c.n(60, 600)):
        f = d.png_field(rng, bitmap=False)
        k = rng.randrange(5)
        x = bytearray(f.s7)
        if k == 0:
            x = x[:rng.randrange(0, 33)]                      # inside the header
        elif k == 1:
            x[rng.randrange(8)] ^= 1 << rng.randrange(8)      # signature
        elif k == 2:
            x = bytearray(rng.randbytes(rng.randrange(0, 60)))
        elif k == 3:
            x[29 + rng.randrange(4)] ^= 1 << rng.randrange(8)  # checksum of the header
        else:
            x = x[:33]                                        # no image data at all
        fs.append(d.Field(f.npts, f.s5, bytes(x), img=bad, label="not a PNG"))
    for _ in range(c.n(40, 400)):
        f = rng.choice(js)
        k = rng.randrange(3)
        x = bytearray(f.s7)
        if k == 0:
            x = x[:rng.randrange(0, 20)]
        elif k == 1:
            x[rng.randrange(2)] ^= 1 << rng.randrange(8)
        else:
            x = bytearray(rng.randbytes(rng.randrange(0, 60)))
        fs.append(d.Field(f.npts, f.s5, bytes(x), f.ind, f.bm, img=bad, label="not a code stream"))
    # cut inside the tile data: whatever comes, it ends
    for _ in range(c.n(60, 600)):
        f = rng.choice(js)
        x = f.s7[:rng.randrange(min(40, len(f.s7)), len(f.s7) + 1)]
        if len(x) < len(f.s7):
            fs.append(d.Field(f.npts, f.s5, x, f.ind, f.bm, img={"k": "open", "xs": []}, label="cut code stream"))
    # images of other kinds: several components
    cases = [dict(op="j2kenc", w=4, h=3, prec=8, ncomp=3, vals=list(range(12))) for _ in range(2)]
    for o in core.encode(cases):
        fs.append(d.Field(12, d.s5_head(12, 40) + d.simple_params(rng, 8), bytes.fromhex(o["j2k"]), img=bad, label="three components"))
    d.check(c, fs, "image", hints=5)
    c.sample({"label": fs[10].label, "npts": fs[10].npts, "s5": fs[10].s5.hex(), "s7": fs[10].s7.hex()})
    # long fields
    fs = [L.png(rng, 300, 260, 16), L.png(rng, 70000, 1, 8), L.png(rng, 1, 66000, 2)]
    if core.has_jpeg2000():
        fs += [L.j2k(rng, 300, 260, 12), L.j2k(rng, 66000, 2, 8)]
    L.check(c, fs if c.thorough else [rng.choice(fs[:3]), fs[3]])


run.meta = dict(
    rule="PNG images of all depths, widths 1..17 (1..33) and further sizes, all line filters, interlaced ones, several data chunks; JPEG 2000 "
         "code streams of 1..24 bits; constant fields; data that is no image",
    assumptions=["the images are written by the checks (zlib) and by OpenJPEG's encoder; their samples are the oracle",
                 "an image whose number of samples differs from the number of encoded points is left open",
                 "JPEG 2000 streams cut inside the tile data are left open"])
