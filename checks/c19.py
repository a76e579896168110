"""C19: header fields."""
from checks import metalib as m
from lib import core
from lib import gribbytes as gb


def run(c):
    rng = c.rng
    m.replay(c, "MCHeaderDeep" if c.thorough else "MCHeader", (1, 3, 5))
    # sections alone
    items = []
    for _ in range(c.n(900, 12000)):
        k = rng.choice([1, 1, 3, 3, 5])
        p = {1: m.rnd_s1, 3: m.rnd_s3, 5: m.rnd_s5}[k](rng)
        if rng.random() < .1:
            p = p[:rng.randrange(len(p) + 1)]
        items.append((k, p))
    # the calendar: every month's end, leap years of all kinds
    for y in [1, 4, 100, 400, 1600, 1700, 1899, 1900, 1996, 1999, 2000, 2001, 2004, 2023, 2024, 2100, 2400, 9999, 65532, 65535]:
        for mo in range(0, 14):
            for d in ([0, 1, 28, 29, 30, 31, 32, 255] if c.thorough or mo in (0, 2, 13) else [rng.choice([28, 29, 30]), 31]):
                items.append((1, bytes(7) + gb.u(y, 2) + bytes([mo, d, 12, 30, 30, 0, 0])))
    items += [(1, bytes(7) + gb.u(2024, 2) + bytes([2, 29, h, mi, s, 0, 0])) for h in (0, 23, 24, 255) for mi in (0, 59, 60, 255) for s in (0, 59, 60, 61, 255)]
    m.check_payloads(c, items, "header section")
    # files; sections too short to hold their fixed part are rejected when read
    files = [m.rnd_file(rng) for _ in range(c.n(350, 4000))]
    m.check_files(c, files, ["header"], "header")
    m.check_samples(c, ["header"])
    cases = []
    for num, least in ((1, 16), (3, 9), (4, 4), (5, 6), (6, 1)):
        for n in list(range(least)) + [least]:
            ss = [gb.s1(), gb.s3_latlon(1, 1), gb.s4(), gb.s5(0, 1, gb.t_simple()), gb.s6(), gb.s7(b"\0")]
            ss[{1: 0, 3: 1, 4: 2, 5: 3, 6: 4}[num]] = gb.sect(num, bytes([0] * n) if num != 1 else (bytes(7) + gb.u(2024, 2) + bytes([1] * 7))[:n])
            for bufs in (dict(), dict(slice=True)):
                cases.append((dict(op="open", data=gb.msg(ss).hex(), **bufs), n >= least, num, n))
    outs = core.run_driver([x[0] for x in cases])
    c.count(len(cases))
    for (case, ok, num, n), o in zip(cases, outs):
        if o["res"]["k"] != ("ok" if ok else "err"):
            c.violation(f"section {num} of {n} octets: expected {'success' if ok else 'an error'} observed {o['res']}", {"case": case, "observed": o})


run.meta = dict(rule="every length and every marked octet of sections 1, 3 (templates 0, 20, 30, 40 and unsupported ones) and 5, as emitted by MCHeader; random "
                     "sections and files, calendar limits; all accessors compared with Header's reading of the same octets",
                assumptions=["leap seconds and the year 0 are not judged", "Lambert definitions that lack the trailing pole position are not judged"])
