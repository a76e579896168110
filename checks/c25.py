"""C25: the command-line tool says what the library says."""
import fcntl, os, pty, re, shutil, struct, subprocess, tempfile, termios, threading
import concurrent.futures as cf
from checks import declib as d, gridlib as gl, metalib as m
from lib import core
from lib import gribbytes as gb


# --- running the tool ---------------------------------------------------------

def tokens(line, cmd, flags):
    if cmd == "list" and not flags:
        line = re.sub(r"│\s*(\d+)/\s*(\d+)\s", r"│ \1 / \2 ", line + " ")
    return line.replace("│", " | ").split()


def argv(q, path, out, rng):
    pick = lambda a, b: a if rng.random() < .5 else b
    long = {"s": "--sections", "m": "--submessages", "t": "--templates", "d": "--dump"}
    fl = [pick("-" + f, long[f]) for f in q["flags"]]
    if len(fl) > 1 and rng.random() < .2:
        fl = ["-" + "".join(q["flags"])]
    pos = [path]
    if q["cmd"] == "decode":
        pos.append("".join(map(chr, q["index"])))
        if q["out"] in ("big", "both"):
            fl += [pick("-b", "--big-endian"), out]
        if q["out"] in ("little", "both"):
            fl += [pick("-l", "--little-endian"), out]
    return [core.cli_path(), q["cmd"]] + (fl + pos if rng.random() < .5 else pos + fl)


def terminal(args, env, cwd, rows):
    """a run with a terminal as standard output: what is shown there, without its colours; long output goes through the pager"""
    bins = cwd + "/bin"
    if not os.path.isdir(bins):
        os.makedirs(bins, exist_ok=True)
    for name in ("less", "more"):
        if not os.path.exists(f"{bins}/{name}"):
            tmp = f"{bins}/{name}.{threading.get_ident()}"
            with open(tmp, "w") as f:
                f.write("#!/bin/sh\nexec /bin/cat\n")
            os.chmod(tmp, 0o755)
            os.rename(tmp, f"{bins}/{name}")
    a, b = pty.openpty()
    try:
        fcntl.ioctl(b, termios.TIOCSWINSZ, struct.pack("HHHH", rows, 200, 0, 0))
        p = subprocess.Popen(args, stdin=subprocess.DEVNULL, stdout=b, stderr=subprocess.PIPE, env=dict(env, PATH=bins, TERM="xterm"), cwd=cwd, preexec_fn=core._limits)
    finally:
        os.close(b)
    got = []

    def drain():
        while True:
            try:
                x = os.read(a, 65536)
            except OSError:
                break
            if not x:
                break
            got.append(x)

    t = threading.Thread(target=drain, daemon=True)
    t.start()
    try:
        se = p.communicate(timeout=60)[1]
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise
    finally:
        t.join(5)
        os.close(a)
    so = re.sub(r"\x1b\[[0-9;]*m", "", b"".join(got).decode("utf-8", "replace")).replace("\r\n", "\n")
    return p.returncode, so, se.decode("utf-8", "replace")


def execute(args, out, cmd, flags, cwd, spare, rows=0):
    old = b""
    if spare and not os.path.lexists(out):  # a file of that name is there already
        old = b"was here before " * spare
        with open(out, "wb") as f:
            f.write(old)
    env = {"PATH": os.environ.get("PATH", ""), "LC_ALL": "C.UTF-8"}
    try:
        if rows:
            rc, so, se = terminal(args, env, cwd, rows)
        else:
            p = subprocess.run(args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60, cwd=cwd, preexec_fn=core._limits)
            rc, so, se = p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        rc, so, se = -9, "", "timeout"
    octets = open(out, "rb").read() if os.path.isfile(out) else None
    written = octets is not None and (octets != old or not spare)
    if octets is not None:
        os.unlink(out)
    octets = list(octets) if written else []
    return dict(rc=rc, err=bool(se.strip()), panic="panicked" in se, lines=[t for t in (tokens(x, cmd, flags) for x in so.splitlines()) if t], written=written, octets=octets), se


class Runs:
    """Runs of the tool on files of a scratch directory."""

    def __init__(self, rng):
        self.rng, self.dir, self.n = rng, tempfile.mkdtemp(prefix="cli.", dir=core.BUILD), 0
        os.mkdir(self.dir + "/adir")

    def put(self, data):
        self.n += 1
        p = f"{self.dir}/f{self.n}.grib2"
        with open(p, "wb") as f:
            f.write(data)
        return p

    def run(self, items, tty=0.0):
        """items: (request, path); some of them with a terminal as standard output"""
        jobs = []
        for k, (q, path) in enumerate(items):
            out = f"{self.dir}/out{k}"
            if q["target"] == "bad":
                out = self.rng.choice([f"{self.dir}/none/out", "/dev/full", f"{self.dir}/adir"])
            jobs.append((argv(q, path, out, self.rng), out, q["cmd"], q["flags"], self.dir, self.rng.choice([0, 1, 300]) if q["target"] == "ok" and q["out"] != "text" else 0,
                         self.rng.choice([3, 24, 24, 60, 5000]) if self.rng.random() < tty else 0))
        with cf.ThreadPoolExecutor(core.JOBS) as ex:
            return list(ex.map(lambda j: execute(*j), jobs)), [j[0] for j in jobs]

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# --- what the library says ------------------------------------------------------

def lib_rec(o):
    w = lambda s: s.split()
    if o["open"]["k"] != "ok":
        return dict(open="err", subs=[], sections=[], tmpls=[])
    subs = []
    for s in o["subs"]:
        i = s["info"]
        lines = [[t for t in tokens(x, "", [])] for x in s["describe"].splitlines()]
        subs.append(dict(id=s["id"], sects=s["sects"], tmpls=s["tmpls"], param=w(s["param"]), gen=w(s["gen"]), ft=w(s["ft"]),
                         surf=[[w(a), ["[" + b.split()[0]] + b.split()[1:-1] + [b.split()[-1] + "]"] if len(b.split()) > 1 else [f"[{b}]"] if b else []] for a, b in s["surf"]],
                         total=s["total"], repr=s["repr"], grid=w(s["grid"]), gridtmpl=s["gridtmpl"], describe=[x for x in lines if x],
                         info=dict(time=[i["time"][0], w(i["time"][1])], texts=[w(x) for x in i["texts"]]),
                         latlons=s["latlons"], values={k: s["values"].get(k, []) for k in ("k", "v")}))
    return dict(open="ok", subs=subs, sections=o["sections"], tmpls=[[t] if x is None else [t, "-"] + w(x) for t, x in o["tmpls"]])


def library(datas, points=True):
    return [lib_rec(o) for o in core.run_driver([dict(op="library", data=x.hex(), points=points) for x in datas])]


ABSENT = dict(open="err", subs=[], sections=[], tmpls=[])


def judge(c, libs, reqs, runs, args, what, datas):
    recs = [dict(lib=l, req=q, run=r[0]) for l, q, r in zip(libs, reqs, runs)]
    c.count(len(recs))
    for i, e in core.validate("TraceCli", recs, min_shard=20):
        r, se = runs[i]
        c.violation(f"{what}: {' '.join(args[i][1:])} on {datas[i][:200]}: specified {str(e['want'])[:500]} observed exit {r['rc']} {se[:200]} {str(r['lines'])[:400]} {r['octets'][:24]}",
                    {"args": args[i], "data": datas[i], "specified": e["want"], "observed": r, "stderr": se})


# --- files ----------------------------------------------------------------------

def nogrid():
    return gb.s3(90, bytes(60), 6)


def badgrid():
    return gb.s3(0, gb.g_latlon(3, 2)[:20], 6)


def grid(kind, scan=64):
    return nogrid() if kind == "nogrid" else badgrid() if kind == "badgrid" else \
        gb.s3_latlon(3, 2, lat1=0, lon1=0, lat2=1000000, lon2=2000000, di=1000000, dj=1000000, scan=scan)


def fields(rng, kind):
    if kind == "novalues":
        return [gb.s4(), gb.s5(rng.choice([1, 4, 50, 200]), 6, bytes(20)), gb.s6(), gb.s7(bytes(6))]
    v = [rng.randrange(256) for _ in range(6)]
    return [gb.s4(num=rng.randrange(9)), gb.s5(0, 6, gb.t_simple(rng.choice([0.0, -3.5, 273.15]), rng.randrange(-3, 4), rng.randrange(-1, 3), 8)), gb.s6(), gb.s7(bytes(v))]


def realise(rng, f):
    """the octets of a file of the model"""
    how, msgs = f
    out = b""
    for time, kinds in msgs:
        ss = [gb.s1(ymdhms=(2024, 2, 29, 12, 30, 59) if time else (2024, rng.choice([0, 13]), 1, 0, 0, 0))]
        for k in kinds:
            ss += [grid(k)] + fields(rng, k)
        out += gb.msg(ss)
    good = gb.simple_file(1)
    return {"ok": out, "junk": b"no grib data here at all", "empty": b"", "cut": good[:rng.randrange(20, len(good) - 4)], "broken": gb.msg([gb.s1(), gb.s4()])}.get(how)


def rnd_request(rng, lib, points=True):
    cmd = rng.choice(["info", "list", "inspect", "decode", "decode", "decode"] if points else ["info", "list", "list", "inspect"])
    q = dict(cmd=cmd, flags=[], index=[], out="text", target="ok")
    if cmd == "list" and rng.random() < .4:
        q["flags"] = ["d"]
    elif cmd == "inspect":
        q["flags"] = rng.sample("smt", rng.randrange(4))
    elif cmd == "decode":
        ids = [s["id"] for s in lib["subs"]] or [[0, 0]]
        i = rng.choice(ids)
        s = f"{i[0]}.{i[1]}"
        x = rng.random()
        if x < .06:
            s = f"0{i[0]}.00{i[1]}"
        elif x < .1:
            s = f"{i[0] + rng.randrange(3)}.{i[1] + rng.randrange(3)}"
        elif x < .13:
            s = rng.choice(["", ".", "0", "0.", ".0", "a.0", "0.0.0", "0,0", " 0.0", "0.0 ", "0.0\n", "+0.0", "0x0.0", "٠.٠", "18446744073709551616.0", "4294967296.0"])
        q["index"] = [ord(ch) for ch in s]
        q["out"] = rng.choice(["text", "text", "big", "little"])
        if q["out"] != "text" and rng.random() < .05:
            q["target"] = "bad"
    return q


def rnd_grid(rng, n):
    """a grid of n points, most of the time one that has coordinates"""
    x = rng.random()
    fac = [k for k in range(1, n + 1) if n % k == 0] or [1]
    ni = rng.choice(fac)
    nj = max(n, 1) // ni
    scan = rng.randrange(16) << 4
    if x < .1:
        return gb.s3(90, bytes(60), n)
    if x < .15:
        return gb.s3_latlon(ni, nj + 1, lat2=5000000, npts=n)
    lo = rng.choice([0, 10000000, 350000000, 180000000])
    la = rng.choice([0, -20000000, 30000000, 60000000])
    dj = rng.choice([1, 250000, 1000000, 333333])
    la2 = la + (nj - 1) * dj * (1 if scan & 64 else -1)
    lo2 = (lo + (ni - 1) * 500000 * (-1 if scan & 128 else 1)) % 360000000
    return gb.s3_latlon(ni, nj, lat1=la, lon1=lo, lat2=la2, lon2=lo2, di=500000, dj=dj, scan=scan, npts=n)


def rnd_values_file(rng):
    out, ids = b"", []
    for mi in range(rng.choice([1, 1, 2, 3])):
        ss = [gb.s1(centre=rng.choice([34, 7, 98]), ymdhms=(rng.choice([1, 1999, 2024, 65535]), rng.choice([1, 6, 12, 13]) if rng.random() < .1 else 2, rng.choice([1, 28]), 23, 59, 0))]
        last = None
        for k in range(rng.choice([1, 1, 2, 4])):
            f = rng.choice([d.simple, d.simple, d.complex_, d.runlength])(rng)
            if f.npts > 400:
                f = d.simple(rng)
            if k == 0 or rng.random() < .6 or last != f.npts:
                if rng.random() < .2:
                    ss.append(gb.s2(rng.randbytes(3)))
                ss.append(rnd_grid(rng, f.npts))
                last = f.npts
            s5 = f.s5
            if rng.random() < .05:
                s5 = s5[:4] + b"\0\x32" + s5[6:]
            ss += [gb.s4(num=rng.randrange(20), cat=rng.randrange(8)), gb.sect(5, s5), gb.s6(f.ind, f.bm), gb.s7(f.s7)]
        out += gb.rnd_gap(rng) + gb.msg(ss, disc=rng.choice([0, 0, 1, 2, 10]))
    return out


def special_values(rng):
    """infinities, very large and very small numbers"""
    refs = [0x7f800000, 0xff800000, 0x7fc00000, 0x00000001, 0x80000000, 0x7f7fffff, 0x00800000, 0x3f7fffff, 0x4b800001, 0xc2f6e979]
    n = rng.randrange(1, 5)
    return gb.msg([gb.s1(), rnd_grid(rng, n), gb.s4(), gb.s5(0, n, gb.t_simple(rng.choice(refs), rng.choice([0, 3, 120, -130]), rng.choice([0, 0, 3, -3]), 8)), gb.s6(), gb.s7(rng.randbytes(n))])


def many_fields(rng, how, n):
    """n fields of a point each: as many messages, or one message of as many submessages"""
    one = lambda k: [gb.s4(num=k % 20), gb.s5(0, 1, gb.t_simple(float(k), 0, 0, 8)), gb.s6(), gb.s7(bytes([rng.randrange(256)]))]
    head = lambda: [gb.s1(), gb.s3_latlon(1, 1, lat1=5, lon1=7, lat2=5, lon2=7, di=1, dj=1, scan=64, npts=1)]
    if how == 0:
        return b"".join(gb.msg(head() + one(k)) for k in range(n))
    return gb.msg(head() + [x for k in range(n) for x in one(k)])


def run(c):
    rng = c.rng
    R = Runs(rng)
    try:
        # every request of the model
        r = core.tlc("MCCli", "MCCliDeep" if c.thorough else "MCCli", workers=core.JOBS, mem="8g")
        c.note("requests_of_the_model", len(r.emitted))
        files, items, datas, libs, reqs = {}, [], [], [], []
        for e in r.emitted:
            k = str(e["file"])
            if k not in files:
                data = realise(rng, e["file"])
                path = R.dir + "/nothere" if e["file"][0] == "absent" else R.dir + "/adir" if data is None else R.put(data)
                files[k] = [path, data]
        known = [k for k in files if files[k][1] is not None]
        for k, l in zip(known, library([files[k][1] for k in known])):
            files[k].append(l)
        for e in r.emitted:
            f = files[str(e["file"])]
            items.append((e["req"], f[0]))
            libs.append(f[2] if len(f) > 2 else ABSENT)
            reqs.append(e["req"])
            datas.append(f[1].hex() if f[1] is not None else e["file"][0])
        runs, args = R.run(items)
        c.count(len(runs))
        for e, (x, se), a, dd in zip(r.emitted, runs, args, datas):
            if (x["rc"] == 0) != (e["exit"] == 0):
                c.violation(f"{e['req']} on {e['file']}: specified exit {e['exit']} observed {x['rc']} {se[:300]}", {"args": a, "data": dd, "specified": e, "observed": x})
        c.sample({k: r.emitted[len(r.emitted) // 2][k] for k in ("file", "req", "exit")})
        judge(c, libs, reqs, runs, args, "model", datas)
        # random files
        todo = [(rnd_values_file(rng), True) for _ in range(c.n(150, 1500))] + [(special_values(rng), True) for _ in range(c.n(50, 400))]
        todo += [(b"".join(x.octets() for x in m.rnd_file(rng)), False) for _ in range(c.n(120, 1200))]
        for _ in range(c.n(60, 600)):  # damaged ones
            x = bytearray(rnd_values_file(rng))
            y = rng.random()
            if y < .4:
                x = x[:rng.randrange(len(x))]
            elif y < .7:
                x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
            else:
                k = rng.randrange(len(x))
                x[k:k] = rng.randbytes(3)
            todo.append((bytes(x), False))
        # many points, with and without coordinates
        big = []
        for kind in c.n((0, 1, 2), (0, 1, 2) * 8):
            n = rng.choice([1001, 1024, 2500, 4097])
            f = d.simple(rng, nbit=rng.choice([4, 12]), npts=n, bitmap=kind == 2, extra=False)
            g = gb.s3(90, bytes(60), n) if kind == 0 else gb.s3_latlon(n, 1, lat1=0, lon1=0, lat2=0, lon2=(n - 1) * 1000, di=1000, dj=1000, scan=64, npts=n)
            big.append(gb.msg([gb.s1(), g, gb.s4(), gb.sect(5, f.s5), gb.s6(f.ind, f.bm), gb.s7(f.s7)]))
        todo += [(x, True) for x in big]
        # hundreds of submessages, and of messages
        many = [many_fields(rng, k, 300) for k in c.n((0, 1), (0, 1) * 3)]
        todo += [(x, True) for x in many]
        both = []
        for points in (True, False):
            sel = [x for x, p in todo if p == points]
            both += list(zip(sel, library(sel, points), [points] * len(sel)))
        items, datas, libs, reqs = [], [], [], []
        for data, lib, points in both:
            path = R.put(data)
            for k in range(c.n(6, 8)):
                q = rnd_request(rng, lib, points)
                if data in many:
                    i = rng.choice([256, 257, 299, 300, rng.randrange(300), rng.choice([255, 512, 556])]) if k else 256 + rng.randrange(44)
                    q = dict(cmd="decode", flags=[], index=[ord(x) for x in (f"{i}.0" if many.index(data) % 2 == 0 else f"0.{i}")], out=rng.choice(("text", "big", "little")), target="ok")
                if data in big:
                    if k > 1:
                        break
                    q = dict(cmd="decode", flags=[], index=[ord(x) for x in "0.0"], out=("text", rng.choice(["big", "little"]))[k], target="ok")
                items.append((q, path))
                datas.append(data.hex())
                libs.append(lib)
                reqs.append(q)
        runs, args = R.run(items, tty=.1)
        judge(c, libs, reqs, runs, args, "random file", datas)
        for q, x in zip(reqs, datas):
            c.seen([q, x])
    finally:
        R.close()


run.meta = dict(rule="every request of the model (commands, options, indices, output files that can and cannot be written) on every file of the model, and random requests on random, special "
                     "and damaged files; exit status, words of the output and octets written compared with the specification over what the library says",
                assumptions=["failures of the standard output are not judged (the tool prints with print!)",
                             "outputs are compared by words: the width of the padding is not judged",
                             "where the grid has another number of points than the field has values, the text output is not judged"])
