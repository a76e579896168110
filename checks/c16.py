"""C16: coordinates of regular latitude/longitude grids."""
from checks import gridlib as g

MODES = [16 * x for x in range(16)]


def grid(rng, ni=None, nj=None, mode=None, honest=True, tmpl=0, **kw):
    ni = rng.choice([1, 1, 2, 3, 4, 5, 8, 13, rng.randrange(1, 40)]) if ni is None else ni
    nj = rng.choice([1, 1, 2, 3, 4, 5, 8, 13, rng.randrange(1, 40)]) if nj is None else nj
    m = rng.choice(MODES) if mode is None else mode
    q = 1000000
    lat = [rng.choice([0, 90 * q, -90 * q, 89500000, -1, 1, 20 * q, 47600000, rng.randrange(-90 * q, 90 * q + 1)]) for _ in range(2)]
    if rng.random() < .1:
        lat[1] = lat[0]
    lat.sort(reverse=not (m & 64))
    if not honest and rng.random() < .7:
        lat.reverse()
    k = rng.randrange(8)
    if k == 0:
        lon = [0, 360 * q - 360 * q // max(ni, 1)]
    elif k == 1:
        lon = [rng.choice([180, 270, 350, 359, 120]) * q, rng.choice([0, 10, 90, 60]) * q]
    elif k == 2:
        lon = [rng.choice([-180, -10, -90]) * q, rng.choice([179, 10, 0, 60]) * q]
    elif k == 3:
        a = rng.randrange(360 * q)
        lon = [a, (a - 360 * q // max(ni, 1)) % (360 * q)]
    elif k == 4:
        a = rng.randrange(-180 * q, 360 * q)
        lon = [a, a]
    elif k == 5:
        lon = [0, 360 * q]
    else:
        lon = [rng.randrange(-360 * q, 360 * q + 1) if k == 6 else rng.randrange(360 * q), rng.randrange(360 * q + 1)]
    if m & 128 and k < 4 and rng.random() < .8:
        lon.reverse()
    if rng.random() < .1:
        lon.reverse()
    return g.latlon(ni, nj, scan=m, lat1=lat[0], lat2=lat[1], lon1=lon[0], lon2=lon[1], tmpl=tmpl, **kw)


def run(c):
    rng = c.rng
    defs = [grid(rng) for _ in range(c.n(700, 8000))]
    # contradictory latitudes and wrong numbers of points
    defs += [grid(rng, honest=False) for _ in range(c.n(150, 1000))]
    for _ in range(c.n(100, 800)):
        ni, nj = rng.randrange(1, 9), rng.randrange(1, 9)
        defs.append(grid(rng, ni=ni, nj=nj, npts=max(0, ni * nj + rng.choice([-1, 1, ni, -nj, 7]))))
    # numbers at the ends of their fields
    for _ in range(c.n(60, 600)):
        m = rng.choice(MODES)
        ends = [2147483647, -2147483647, 2147483646, 1073741824, -1073741825, -2000000000, 0, rng.randrange(-2147483647, 2147483648)]
        a, b = sorted(rng.sample(ends, 2), reverse=not (m & 64) if rng.random() < .8 else bool(m & 64))
        defs.append(g.latlon(rng.randrange(1, 6), rng.randrange(1, 6), scan=m, lat1=a, lat2=b, lon1=10000000, lon2=20000000))
    # the four ways round of a small set of meridians, every mode, single rows and columns too
    q = 1000000
    for m in MODES:
        for a, b in [(350, 10), (10, 350), (0, 359), (359, 0), (180, 179), (179, 180), (-170, 170), (170, -170), (-10, 10), (0, 360), (360, 0), (5, 5), (300, 400 - 360)]:
            for ni, nj in [(5, 2), (1, 3), (3, 1), (2, 2)]:
                la = (30 * q, 50 * q) if m & 64 else (50 * q, 30 * q)
                if rng.random() < c.n(.5, 1.01):
                    defs.append(g.latlon(ni, nj, scan=m, lat1=la[0], lat2=la[1], lon1=a * q, lon2=b * q))
    # empty grids; increments and other fields that play no part
    defs += [grid(rng, ni=i, nj=j) for i, j in [(0, 0), (0, 3), (4, 0)] for _ in range(5)]
    defs += [grid(rng, di=rng.randrange(1 << 32), dj=rng.randrange(1 << 32), flags=rng.randrange(256), sub=0xffffffff) for _ in range(40)]
    defs += [grid(rng, ni=rng.randrange(20, 120), nj=rng.randrange(20, 100)) for _ in range(c.n(4, 60))]
    g.check(c, defs, ["latlons"], "coordinates", [{"cap": 12000, "clone": rng.randrange(12)} for _ in defs])
    # grids of many points, judged at some of them
    sizes = [(65536, 2), (2, 65536), (65537, 3), (3, 70000), (257, 256), (720, 361), (1, 66000), (66000, 1), (4096, 17), (1440, 721)]
    defs = [grid(rng, ni=ni, nj=nj, mode=m) for m in MODES for ni, nj in (sizes if c.thorough else rng.sample(sizes, 2))]
    m = rng.choice(MODES)
    defs += [grid(rng, ni=(1 << 24) + rng.randrange(1, 9), nj=1, mode=m), grid(rng, ni=1, nj=(1 << 24) + rng.randrange(1, 9), mode=m ^ 32)]
    g.check_long(c, defs + g.sample_defs((0,)), ["latlons"], "coordinates")
    c.sample({"label": defs[3].label, "payload": defs[3].p.hex()})


run.meta = dict(rule="random and systematic regular latitude/longitude grids (all modes, both ways round the globe, single rows and columns, empty ones, "
                     "contradictory latitudes, wrong numbers of points), every coordinate of every point compared with the exact rational value",
                assumptions=["coordinates are compared within 2^-20 of the largest coordinate (single precision arithmetic)",
                             "longitudes beyond +-360 degrees and ways round the globe of more than a turn are not judged"])
