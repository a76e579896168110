"""Builds the library of the current directory (/repo) with stand-in code tables in a scratch
folder and runs cases on it."""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


class Kit:
    def __init__(self, build=""):
        """build: release (no overflow checks) or noproj (no projection feature)"""
        self.tmp = tempfile.TemporaryDirectory(prefix="demo.")
        h = os.path.join(self.tmp.name, "h")
        shutil.copytree(os.path.join(HERE, "harness"), h)
        env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true",
                   CARGO_TARGET_DIR=os.path.join(self.tmp.name, "target"))
        p = subprocess.run(["cargo", "build", "--offline", "-q"] + {"": [], "release": ["--release", "-p", "driver"], "noproj": ["-p", "driver-noproj"]}[build], cwd=h, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print(p.stdout[-3000:])
            sys.exit(2)
        self.env = env
        self.driver = os.path.join(self.tmp.name, "target", "release" if build == "release" else "debug", "driver-noproj" if build == "noproj" else "driver")
        self.gribber = os.path.join(self.tmp.name, "target", "debug", "gribber")

    def run(self, *cases, timeout=60):
        try:
            p = subprocess.run([self.driver], input="\n".join(json.dumps(c) for c in cases) + "\n", text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            fail("no answer")
        out = [json.loads(x) for x in p.stdout.splitlines()]
        if len(out) != len(cases):
            fail(f"driver ended early ({p.returncode})")
        return out


def fail(what):
    print("FAIL:", what)
    sys.exit(1)


def expect(cond, what):
    if not cond:
        fail(what)
