"""plant.py ID: make seeded/ID from tools-side spec on stdin and verify it.

stdin (python): FILE, EDITS=[(old,new)..], META={...}, DEMO (python2 source run by jython)
"""
import json, os, shutil, subprocess, sys
V = "/verif"
pid = sys.argv[1]
ns = {}
exec(sys.stdin.read(), ns)
W = "/tmp/plant/" + pid
shutil.rmtree(W, ignore_errors=True)
os.makedirs("/tmp/plant", exist_ok=True)
subprocess.check_call(["cp", "-a", "/repo", W])
D = "%s/seeded/%s" % (V, pid)
os.makedirs(D, exist_ok=True)
edits = ns["EDITS"]
if isinstance(edits, list):
    edits = {ns["FILE"]: edits}
for fn, es in edits.items():
    s = open(W + "/" + fn, encoding="utf-8").read()
    for o, n in es:
        assert s.count(o) == 1, (fn, s.count(o), o)
        s = s.replace(o, n)
    open(W + "/" + fn, "w", encoding="utf-8").write(s)
diff = subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True).stdout
assert diff
open(D + "/patch.diff", "w").write(diff)
open(D + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
open(D + "/demo.sh", "w").write('''#!/bin/bash
# run with cwd /repo; exit 0 if the property holds
here=$(cd "$(dirname "$0")" && pwd)
. /opt/jy/env.sh
export JYTHONPATH="$PWD/lib:$JYTHONPATH"
export REPO="$PWD"
exec jython2 "$here/demo.py"
''')
json.dump(ns["META"], open(D + "/meta.json", "w"), indent=1)
def demo(cwd):
    r = subprocess.run(["bash", D + "/demo.sh"], cwd=cwd, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]
a = demo("/repo")
b = demo(W)
print("unchanged:", a[0], a[1] if a[0] else "")
print("patched:", b[0], b[1])
# tests on the patched copy, in its own place, by swapping /repo
if "--notest" not in sys.argv:
    subprocess.check_call(["git", "-C", "/repo", "apply", D + "/patch.diff"])
    try:
        r = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
        print("build", r.returncode, r.stderr[-300:] if r.returncode else "")
        subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/plant/out.json"], capture_output=True)
        out = json.load(open("/tmp/plant/out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        for t in base.get("stable", base.get("tests", [])):
            pass
        ok = set(out["passed"])
        stable = set(base["stable"])
        print("tests broken:", sorted(stable - ok)[:10])
        r = subprocess.run([sys.executable, V + "/check.py", ns["META"]["property"]], cwd=V,
                           capture_output=True, text=True)
        print("check:", r.returncode, r.stdout[-700:])
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
shutil.rmtree(W, ignore_errors=True)
