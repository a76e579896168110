"""Shared machinery of the checks: building, running the driver, running TLC, reporting."""
import atexit, collections, contextlib, concurrent.futures as cf, hashlib, json, os, random, re, resource, select, shutil
import signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
# from then on (seconds), a check that has found a violation reports it and stops
LATE = int(os.environ.get("VERIF_LATE", "860"))
JOBS = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cargo_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    e.pop("RUSTFLAGS", None)
    return e


def locked(name):
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


# ways to build the library: cargo's arguments, and where the driver and the tool are then
VARIANTS = {
    "": ([], "debug/", ""),
    # without the optional projection feature
    "noproj": (["-p", "driver-noproj", "-p", "grib-cli-noproj"], "debug/", "-noproj"),
    # optimised, without overflow checks and debug assertions
    "release": (["--release", "-p", "driver", "-p", "grib-cli"], "release/", ""),
    # for a 32-bit target without JPEG 2000; run by node
    "wasm": (["-p", "driver-wasm", "--target", "wasm32-unknown-unknown"], None, None),
}
_variant = [""]


@contextlib.contextmanager
def variant(name):
    """Runs of the driver and the tool inside are of the build of that name."""
    old, _variant[0] = _variant[0], name
    try:
        yield
    finally:
        _variant[0] = old


def has_proj():
    return _variant[0] not in ("noproj", "wasm")


def has_jpeg2000():
    return _variant[0] != "wasm"


def is_32bit():
    return _variant[0] == "wasm"


def _wasm_env():
    """The standard library is not installed for that target: it is built from rust-src, once."""
    e = dict(cargo_env(), RUSTUP_TOOLCHAIN="nightly")
    base = os.path.join(BUILD, "wasm")
    sysroot, done = os.path.join(base, "sysroot"), os.path.join(base, "std.done")
    host = subprocess.run(["rustc", "--print", "sysroot"], env=e, stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    if not os.path.exists(done) or open(done).read() != host:
        shutil.rmtree(base, ignore_errors=True)
        lib = os.path.join(sysroot, "lib", "rustlib", "wasm32-unknown-unknown", "lib")
        os.makedirs(lib)
        shutil.copytree(os.path.join(host, "lib", "rustlib", "src", "rust", "library"), os.path.join(base, "library"))
        p = subprocess.run(["cargo", "build", "-q", "--offline", "--release", "-p", "std", "--target", "wasm32-unknown-unknown", "--target-dir", os.path.join(base, "std")],
                           cwd=os.path.join(base, "library"), env=dict(e, RUSTC_BOOTSTRAP="1", RUSTFLAGS="-Zforce-unstable-if-unmarked -Cpanic=abort"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            log(p.stdout[-4000:])
            raise ToolError("building std failed")
        for d, _, files in os.walk(os.path.join(base, "std", "wasm32-unknown-unknown")):
            for f in files:
                if f.endswith((".rlib", ".rmeta")):
                    shutil.copy(os.path.join(d, f), lib)
        os.symlink(os.path.join(host, "lib", "rustlib", "x86_64-unknown-linux-gnu"), os.path.join(sysroot, "lib", "rustlib", "x86_64-unknown-linux-gnu"))
        shutil.rmtree(os.path.join(base, "library"))
        shutil.rmtree(os.path.join(base, "std"))
        with open(done, "w") as f:
            f.write(host)
    # a gigabyte at most, as no limit can be set on node
    return dict(e, CARGO_TARGET_DIR=os.path.join(base, "target"), CARGO_TARGET_WASM32_UNKNOWN_UNKNOWN_RUSTFLAGS=f"--sysroot {sysroot} -Clink-arg=--max-memory=1073741824")


def build(packages=(), name=""):
    """Builds what a check needs (all: driver and CLI) from /repo's working tree, and the TLC override class."""
    with locked("build"):
        p = subprocess.run(["cargo", "build", "--offline", "-q", *VARIANTS[name][0], *[x for y in packages for x in ("-p", y)]], cwd=os.path.join(VERIF, "harness"),
                           env=_wasm_env() if name == "wasm" else cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            log(p.stdout[-4000:])
            raise ToolError("cargo build failed")
        src, out = os.path.join(VERIF, "java", "Rat.java"), os.path.join(BUILD, "java")
        cls = os.path.join(out, "Rat.class")
        if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
            os.makedirs(out, exist_ok=True)
            p = subprocess.run(["javac", "-cp", TLA, "-d", out, src], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                log(p.stdout)
                raise ToolError("javac failed")


def driver_path(exe="driver"):
    if _variant[0] == "wasm":
        return os.path.join(VERIF, "harness", "wasm-driver", "run.mjs")
    _, folder, suffix = VARIANTS[_variant[0]]
    return os.path.join(BUILD, "target", folder, exe + suffix)


def cli_path():
    return driver_path("gribber")


# --- driver ---------------------------------------------------------------

def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class _Driver:
    def __init__(self, exe):
        self.p = None
        self.exe = exe

    def start(self):
        self.p = subprocess.Popen([driver_path(self.exe)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, preexec_fn=_limits if _variant[0] != "wasm" else None)
        self.buf = b""

    def stop(self):
        if self.p:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            for s in (self.p.stdin, self.p.stdout):
                try:
                    s.close()
                except OSError:
                    pass
            self.p = None

    def run(self, line, timeout):
        if self.p is None:
            self.start()
        data = line.encode() + b"\n"
        # the driver reads a whole line before it answers, so this cannot block for good
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except OSError:
            pass
        end = time.time() + timeout
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
            if not r:
                self.stop()
                return {"res": {"k": "hang"}, "open": {"k": "hang"}, "died": "hang"}
            chunk = os.read(self.p.stdout.fileno(), 1 << 20)
            if not chunk:
                rc = self.p.wait()
                self.stop()
                if rc > 0 and rc != 101:
                    raise ToolError(f"driver exited with {rc} on {line[:300]}")
                w = f"exit {rc}"
                return {"res": {"k": "crash", "m": w}, "open": {"k": "crash", "m": w}, "died": w}
            self.buf += chunk
        out, _, self.buf = self.buf.partition(b"\n")
        return json.loads(out)


def run_driver(cases, timeout=45, jobs=JOBS, exe="driver"):
    """Runs every case on the real code; a crash or hang of the code under test is a result."""
    cases = list(cases)
    res = [None] * len(cases)
    if not cases:
        return res
    jobs = max(1, min(jobs, (len(cases) + 15) // 16))
    it = iter(range(len(cases)))
    lock = threading.Lock()
    hangs = [0]

    def work():
        d = _Driver(exe)
        try:
            while True:
                with lock:
                    i = next(it, None)
                if i is None:
                    return
                t0 = time.time()
                n = hangs[0]
                r = d.run(json.dumps(cases[i], separators=(",", ":")), timeout if n < 3 else 10 if n < 10 else 2 if n < 30 else 0.5)
                if "died" in r and time.time() - t0 > 0.4:
                    hangs[0] += 1
                res[i] = r
        finally:
            d.stop()

    with cf.ThreadPoolExecutor(jobs) as ex:
        for f in [ex.submit(work) for _ in range(jobs)]:
            f.result()
    return res


def encode(cases):
    """Images from the usual build's encoders."""
    with variant(""):
        return run_driver(cases)


# --- TLC ------------------------------------------------------------------

Tlc = collections.namedtuple("Tlc", "ok states distinct depth emitted text violated coverage")
STATS = {"states": 0, "transitions": 0, "runs": 0}
SEEN = {}  # verdicts of trace specifications, as counted by them
_slock = threading.Lock()


def tlc(module, cfg, env=None, workers=1, timeout=800, mem="3g", extra=(), expect_ok=True):
    """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg. Prints starting with @@ are collected."""
    meta = tempfile.mkdtemp(prefix="tlc.", dir=os.path.join(BUILD))
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, f"-Xmx{mem}", "-Xss64m", f"-Djava.io.tmpdir={meta}", "-XX:TieredStopAtLevel=4", "-cp", f"{TLA}:{BUILD}/java", "tlc2.TLC", "-noGenerateSpecTE",
           "-deadlock", "-workers", str(workers), "-metadir", meta, "-config", os.path.join(SPEC, cfg + ".cfg"),
           *extra, os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module}/{cfg}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    text = p.stdout.decode("utf-8", "replace")
    emitted = []
    rest = []
    for line in text.splitlines():
        if line.startswith('"@@'):
            emitted.append(json.loads(json.loads(line)[2:]))
        else:
            rest.append(line)
    text = "\n".join(rest)
    m = None
    for m in re.finditer(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", text):
        pass
    st, di = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
    d = re.search(r"depth of the complete state graph search is (\d+)", text)
    depth = int(d.group(1)) if d else 0
    ok = p.returncode == 0
    viol = re.findall(r"(?:Invariant|Action property|Temporal property|Postcondition|Assumption) (\S+) (?:is|was|line)", text)
    with _slock:
        STATS["states"] += di
        STATS["transitions"] += st
        STATS["runs"] += 1
    if expect_ok and not ok:
        with _slock:
            if not STATS.get("logged"):
                STATS["logged"] = True
                log("\n".join(l for l in text.splitlines() if not re.match(r"(Parsing file|Semantic proc|\s*$|Warning|\(Use)", l))[-2500:])
        raise ToolError(f"TLC failed on {module}/{cfg} (rc {p.returncode})")
    return Tlc(ok, st, di, depth, emitted, text, viol, None)


def validate(module, records, cfg=None, shards=None, timeout=800, mem="3g", min_shard=1, env=None):
    """Trace validation: TLC reads the records (one per line) and consumes all of them,
    printing @@{"bad": line, ...} for every one the specification does not explain.
    Returns the list of (record index, diagnostics)."""
    records = list(records)
    if not records:
        return []
    n = shards or JOBS
    n = max(1, min(n, (len(records) + min_shard - 1) // min_shard))
    # heavy records spread evenly
    idx = [list(range(k, len(records), n)) for k in range(n)]
    tmp = tempfile.mkdtemp(prefix="trace.", dir=BUILD)
    bad = []

    def one(k):
        path = os.path.join(tmp, f"{k}.ndjson")
        with open(path, "w") as f:
            for i in idx[k]:
                f.write(json.dumps(records[i], separators=(",", ":")) + "\n")
        r = tlc(module, cfg or module, env={**(env or {}), "TRACE": path}, timeout=timeout, mem=mem)
        out = []
        done = 0
        for e in r.emitted:
            if "bad" in e:
                out.append((idx[k][e["bad"] - 1], e))
            if "done" in e:
                done = e["done"]
                with _slock:
                    for kind, v in e.get("seen", {}).items():
                        SEEN[kind] = SEEN.get(kind, 0) + v
        if done != len(idx[k]):
            raise ToolError(f"{module}: {done} of {len(idx[k])} records consumed")
        return out

    try:
        with cf.ThreadPoolExecutor(n) as ex:
            for b in ex.map(one, range(n)):
                bad += b
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    bad.sort(key=lambda x: x[0])
    return bad


# --- reporting ------------------------------------------------------------

KNOWN = os.path.join(VERIF, "known-findings.txt")


def known_findings(pid):
    """Entries 'finding: property=<id> key=<key> <text>'; fixed ones suppress nothing."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


class Check:
    def __init__(self, pid, level="model_checking", packages=()):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.rng = random.Random(f"{pid}/{SEED}/{TIER}")
        self.thorough = TIER == "thorough"
        self.violations = []
        self.traces = 0
        self.samples = []
        self.known = known_findings(pid)
        self.known_hit = {}
        self.notes = {}
        self.distinct = set()
        build(packages)

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def sample(self, x, cap=6):
        if len(self.samples) < cap:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 1500 else s[:1500])

    def count(self, k=1):
        self.traces += k

    def seen(self, x):
        self.distinct.add(hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16])

    def violation(self, what, replay, key=None):
        """replay: anything JSON; enough to reproduce the failing case."""
        if key is not None and key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return
        self.violations.append((what, replay))

    def note(self, k, v):
        self.notes[k] = v

    def finish(self, rule=None, assumptions=()):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {
            "states": STATS["states"], "transitions": STATS["transitions"], "tlc_runs": STATS["runs"],
            "traces_validated_against_impl": self.traces, "samples": self.samples or ["-"],
            "distinct_cases": len(self.distinct),
        }
        if SEEN:
            cov["verdicts"] = dict(SEEN)
        if rule:
            cov["rule"] = rule
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": "thorough" if self.thorough else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        for k, n in sorted(self.known_hit.items()):
            print(f"KNOWN-FINDING: property={self.pid} {self.known[k]}")
        if self.violations:
            rp = os.path.join(VERIF, "evidence", f"{self.pid}.replay.json")
            with open(rp, "w") as f:
                json.dump([{"what": w, "replay": r} for w, r in self.violations[:50]], f, indent=1)
            for w, _ in self.violations[:5]:
                log("violation:", w[:600])
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"ok property={self.pid} traces={self.traces} states={STATS['states']} wall={ev['wall_s']}s")
        return 0


def tlapm(module, timeout=600):
    """Has the proofs of a module of spec/ checked by the TLA+ proof system; the number of its obligations."""
    with tempfile.TemporaryDirectory(dir=BUILD) as d:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        try:
            r = subprocess.run(["tlapm", "--cleanfp", "--stretch", "3", module + ".tla"], cwd=d, timeout=timeout, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        except subprocess.TimeoutExpired:
            raise ToolError(f"tlapm timed out on {module}")
    m = re.search(r"All (\d+) obligations? proved", r.stdout)
    if not m:
        raise ToolError(f"proofs of {module}: " + r.stdout[-1500:])
    return int(m.group(1))


def descendants(pid):
    kids = {}
    for x in os.listdir("/proc"):
        if x.isdigit():
            try:
                with open(f"/proc/{x}/stat") as f:
                    kids.setdefault(int(f.read().rsplit(")", 1)[1].split()[1]), []).append(int(x))
            except (OSError, IndexError, ValueError):
                pass
    out, todo = [], [pid]
    while todo:
        for k in kids.get(todo.pop(), []):
            out.append(k)
            todo.append(k)
    return out


def main(pid, fn):
    c = None
    meta = getattr(fn, "meta", {})

    def late(*_):
        # code that is wrong may be slow as well: what has been found by now is reported
        if c is not None and c.violations:
            log("stopped after", LATE, "s")
            c.finish(**meta)
            sys.stdout.flush()
            for p in descendants(os.getpid()):
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            os._exit(1)

    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, LATE, 20)
    try:
        c = Check(pid, packages=getattr(fn, "packages", ()))
        try:
            fn(c)
        except (ToolError, LookupError, TypeError, ValueError, ArithmeticError) as e:
            # answers of another kind than expected, no answer in time: it is a violation that counts if there is one
            if not c.violations:
                raise
            log("stopped by", repr(e)[:300])
        rc = c.finish(**meta)
    except ToolError as e:
        log("tool error:", e)
        rc = 2
    signal.setitimer(signal.ITIMER_REAL, 0)
    sys.stdout.flush()
    sys.exit(rc)
