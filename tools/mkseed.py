#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS WHAT [--cli|--plain]: makes seeded/ID from /repo's working-tree diff and the demo on
stdin, confirms it (tests pass, demo 0 without and nonzero with the change), and undoes the change."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
flags = [a for a in sys.argv[1:] if a.startswith("--")]
sid, prop, needs, what = args
d = os.path.join(V, "seeded", sid)
patch = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
assert patch, "no change in /repo"
if os.path.exists(d):
    shutil.rmtree(d)
os.makedirs(d)
open(d + "/patch.diff", "w").write(patch)
subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
demo = sys.stdin.read()
open(d + "/demo.py", "w").write(demo)
open(d + "/demo.sh", "w").write('#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 python3 "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
if "--plain" not in flags:
    shutil.copy(V + "/tools/seedkit/kit.py", d)
    shutil.copy(V + "/lib/gribbytes.py", d)
    ig = shutil.ignore_patterns("target", "testdata")
    shutil.copytree(V + "/harness", d + "/harness", ignore=ig)
    drop = ["wasm-driver", "noproj-cli"] + ["cli-shim"] * ("--cli" not in flags) + ["noproj-driver"] * ("--noproj" not in flags)
    t = open(d + "/harness/Cargo.toml").read()
    for x in drop:
        shutil.rmtree(d + "/harness/" + x)
        t = t.replace(f', "{x}"', "")
    open(d + "/harness/Cargo.toml", "w").write(t)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


ok = True
tmp = f"/tmp/seed.{sid}"
if os.path.exists(tmp):
    shutil.rmtree(tmp)
shutil.copytree(d, tmp)
for f in ("patch.diff", "meta.json"):
    os.remove(tmp + "/" + f)
r = sh(f"bash {tmp}/demo.sh", cwd="/repo", timeout=300)
print("clean demo:", r.returncode, r.stdout[-300:], r.stderr[-300:])
ok &= r.returncode == 0
r = sh(f"git -C /repo apply --check {d}/patch.diff && git -C /repo apply {d}/patch.diff")
assert r.returncode == 0, r.stderr
try:
    b = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed.tests.json")
    t = json.load(open("/tmp/seed.tests.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    missing = [x for x in base if x not in json.dumps(t.get("passed", t))]
    print("build/test:", b.returncode, "not passing:", missing)
    ok &= not missing
    r = sh(f"bash {tmp}/demo.sh", cwd="/repo", timeout=300)
    print("seeded demo:", r.returncode, r.stdout[-300:], r.stderr[-300:])
    ok &= r.returncode not in (0, 2)
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    shutil.rmtree(tmp)
print("KEPT" if ok else "NOT CONFIRMED", sid)
if not ok:
    shutil.move(d, f"/tmp/rejected.{sid}.{os.getpid()}")
    sys.exit(1)
