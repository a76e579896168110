"""C13: arbitrary contents of the sections that are decoded."""
from checks import declib as d
from lib import gribbytes as gb

GENS = [d.simple, d.complex_, d.runlength, lambda r: d.runlength(r, False), d.png_field,
        lambda r: d.complex_(r, diff=1), lambda r: d.complex_(r, diff=2)]
BOUND = [0, 1, 2, 3, 7, 8, 15, 16, 17, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 254, 255]


def hit(rng, x, fields=()):
    """one damage of an octet string"""
    x = bytearray(x)
    k = rng.randrange(7)
    if not x or k == 0:
        return bytes(x) + rng.randbytes(rng.randrange(1, 9))
    i = rng.randrange(len(x))
    if k == 1:
        return bytes(x[:i])
    if k == 2:
        x[i] = rng.choice(BOUND)
    elif k == 3:
        x[i] ^= 1 << rng.randrange(8)
    elif k == 4:
        for j in range(i, min(len(x), i + rng.choice([2, 4]))):
            x[j] = rng.choice([0, 255, 127, 128, rng.randrange(256)])
    elif k == 5:
        return bytes(x[:i]) + rng.randbytes(len(x) - i)
    else:
        j = rng.randrange(len(x))
        x[i], x[j] = x[j], x[i]
    return bytes(x)


def damaged(rng, times):
    f = rng.choice(GENS)(rng)
    img = f.img
    for _ in range(times):
        k = rng.random()
        if k < .6:
            # not the number of points and template, mostly
            o = 0 if rng.random() < .1 else 6
            f.s5 = f.s5[:o] + hit(rng, f.s5[o:])
        elif k < .85:
            f.s7 = hit(rng, f.s7)
            if "ct" in img or img["k"] == "ok":
                img = {"k": "open", "xs": []}
        elif k < .95:
            f.bm = hit(rng, f.bm)
            f.ind = rng.choice([0, 0, 0, 255, f.ind])
        else:
            f.npts = rng.choice([0, 1, f.npts + 1, max(0, f.npts - 1), rng.randrange(200)])
    f.img = img
    if len(f.s5) < 6:
        f.s5 += bytes(6 - len(f.s5))
    if f.s5[4:6] == b"\x00\x28":
        f.s5 = f.s5[:4] + b"\0\x29" + f.s5[6:]
        f.img = {"k": "open", "xs": []}
    return f


def wild(rng):
    """arbitrary octets under every template of the packings in question"""
    t = rng.choice([0, 2, 3, 41, 200])
    n = rng.choice([0, 1, 5, 8, 20])
    s5 = gb.u(rng.choice([n, n, n, 0, 1, (1 << 32) - 1, rng.randrange(1 << 32)]), 4) + gb.u(t, 2)
    m = rng.choice([0, 1, 5, 6, 9, 10, 11, 15, 20, 35, 36, 37, 38, 40, 60])
    body = bytearray(rng.choice([bytes(m), b"\xff" * m, rng.randbytes(m), bytes(rng.choice([0, 1, 8, 255, rng.randrange(256)]) for _ in range(m))]))
    if rng.random() < .7 and len(body) > 11:
        body[9] = 0
        body[8] = rng.choice([0, 1, 8, 16, 31, 32, 33, 255])
        body[10] = 1
        body[11] = rng.choice([0, 1, 2])
    s7 = rng.choice([b"", bytes(rng.randrange(40)), rng.randbytes(rng.randrange(60)), b"\xff" * rng.randrange(40)])
    ind, bm = rng.choice([(255, b""), (255, b"\x01"), (0, rng.randbytes(rng.randrange(6)))])
    return d.Field(n, s5 + bytes(body), s7, ind, bm, {"k": "open", "xs": []}, label=f"template {t}")


def extremes(rng):
    fs = []
    # huge announced numbers of points in the representation section
    for t, body, s7 in [(200, bytes([8]) + gb.u(0, 2) + gb.u(0, 2) + b"\0", b"\0" + b"\xff" * 5),
                        (200, bytes([16]) + gb.u(0, 2) + gb.u(0, 2) + b"\0", b"\0\0" + b"\xff" * 6),
                        (0, bytes(10), b""), (0, d.simple_params(rng, 1, 0.0), b"\xff"),
                        (41, d.simple_params(rng, 0, 1.0, wild=False), b""), (41, d.simple_params(rng, 8, 1.0), d.png(rng, 2, 2, 8, [1, 2, 3, 4]))]:
        for n in [1 << 31, (1 << 32) - 1, (1 << 31) - 1]:
            fs.append(d.Field(4, gb.u(n, 4) + gb.u(t, 2) + body, s7, img={"k": "open", "xs": []}, label="huge number of points"))
    # as many grid points
    for t, body, s7 in [(200, bytes([8]) + gb.u(3, 2) + gb.u(3, 2) + b"\0" + bytes(6), b"\1\2\3"), (200, bytes([4]) + gb.u(3, 2) + gb.u(3, 2) + b"\0" + bytes(6), b"\x1f\x23"),
                        (0, d.simple_params(rng, 8, 0.0), b"\1\2\3"), (41, d.simple_params(rng, 8, 1.0), d.png(rng, 2, 2, 8, [1, 2, 3, 4]))]:
        for n in [1 << 30, (1 << 31) - 1]:
            fs.append(d.Field(n, gb.u(n, 4) + gb.u(t, 2) + body, s7, img={"k": "open", "xs": []}, label="huge grid"))
    f = d.complex_(rng, diff=0, bitmap=False)
    fs.append(d.Field((1 << 31) - 1, gb.u((1 << 31) - 1, 4) + f.s5[4:], f.s7, label="huge grid"))
    fs.append(d.Field((1 << 31) - 1, gb.u((1 << 31) - 1, 4) + f.s5[4:26] + gb.u((1 << 31) - 1, 4) + f.s5[30:], f.s7, label="huge grid and groups"))
    # PNG headers that announce images of any size and kind
    for w, h, depth, color in [(65536, 65536, 8, 0), (1 << 30, 4, 1, 0), (1 << 31, 2, 8, 0), (3, 1431655766, 8, 0), (1 << 31, 1, 8, 0), (65535, 65535, 16, 6), (65535, 65535, 8, 2), (0, 0, 8, 0), (3, 2, 8, 3), (3, 2, 8, 4),
                               (2, 1, 16, 2), (4, 1, 8, 6), (4, 1, 8, 2), (4, 1, 16, 6), (4, 1, 3, 0), (4, 1, 4, 3)]:
        raw = d.chunk(b"IHDR", gb.u(w % (1 << 32), 4) + gb.u(h, 4) + bytes([depth, color, 0, 0, 0]))
        for tail in [b"", d.chunk(b"IDAT", d.zlib.compress(b"\0" * 60)) + d.chunk(b"IEND", b"")]:
            for n in [4, (1 << 32) - 1]:
                fs.append(d.Field(4, gb.u(n, 4) + gb.u(41, 2) + d.simple_params(rng, 8, 0.0), b"\x89PNG\r\n\x1a\n" + raw + tail,
                                  img={"k": "open", "xs": []}, label=f"PNG {w}x{h}"))
    return fs


def run(c):
    rng = c.rng
    fs = []
    # every octet of the representation section at its boundary values, one after another
    for g in GENS:
        f = g(rng)
        while f.npts == 0:
            f = g(rng)
        for i in range(6, len(f.s5)):
            for v in (BOUND if c.thorough else rng.sample(BOUND, 5) + [0, 255]):
                fs.append(d.Field(f.npts, f.s5[:i] + bytes([v]) + f.s5[i + 1:], f.s7, f.ind, f.bm,
                                  {"k": "open", "xs": []} if f.s5[5] == 41 and i not in range(6, 14) else f.img, label=f"octet {i} := {v}"))
        # every length of the sections
        for n in range(6, len(f.s5) + 3):
            fs.append(d.Field(f.npts, (f.s5 + b"\0\0\0")[:n], f.s7, f.ind, f.bm, f.img, label=f"section 5 of {n} octets"))
        for n in range(len(f.s7)):
            fs.append(d.Field(f.npts, f.s5, f.s7[:n], f.ind, f.bm, {"k": "open", "xs": []}, label=f"section 7 of {n} octets"))
    for _ in range(c.n(4000, 60000)):
        fs.append(damaged(rng, rng.choice([1, 1, 1, 2, 3])))
    for _ in range(c.n(2500, 40000)):
        fs.append(wild(rng))
    fs += extremes(rng)
    d.check(c, fs, "arbitrary contents", hints=5)
    c.sample({"label": fs[10].label, "npts": fs[10].npts, "s5": fs[10].s5.hex(), "s7": fs[10].s7.hex()})


run.meta = dict(
    rule="every octet of section 5 at boundary values, every length of sections 5 and 7, random damage of valid fields of all packings, "
         "arbitrary octets under every template; judged by the full decoding specification, which also says when an error is due",
    assumptions=["a panic, abort, or a run of more than 45 s counts as a violation", "JPEG 2000 (C code) is not part of this property"])
