"""plant.py NAME PROPERTY: turns the edits made in the scratch copy /tmp/plant into seeded/NAME.

plant.py --start            fresh scratch copy of /repo at /tmp/plant
plant.py --keep NAME PROP   verify (build, stable tests, demo fails with / passes without) and keep
Demo files are taken from /tmp/plant-demo/, texts from /tmp/plant-demo/meta.json.
"""
import json, os, shutil, subprocess, sys

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

if sys.argv[1] == "--start":
    shutil.rmtree("/tmp/plant", ignore_errors=True)
    sh("cp -a /repo /tmp/plant")
    shutil.rmtree("/tmp/plant-demo", ignore_errors=True)
    os.makedirs("/tmp/plant-demo")
    sys.exit()

name, prop = sys.argv[2], sys.argv[3]
diff = sh("git diff", cwd="/tmp/plant").stdout
assert diff.strip(), "no change"
d = f"/verif/seeded/{name}"
base = json.load(open("/opt/vp/BASELINE.json"))
# both demo runs and the tests happen in the real paths of scratch copies
r = sh("cargo build --offline -q --workspace 2>&1", cwd="/tmp/plant")
if r.returncode:
    print("BUILD FAILS\n" + r.stdout[-3000:]); sys.exit(1)
os.makedirs("/tmp/plant-vp", exist_ok=True)
for f in os.listdir("/opt/vp"):
    if os.path.isfile(f"/opt/vp/{f}"):
        t = open(f"/opt/vp/{f}", errors="replace").read().replace("/repo", "/tmp/plant").replace("/opt/vp/", "/tmp/plant-vp/")
        open(f"/tmp/plant-vp/{f}", "w").write(t)
sh("bash /tmp/plant-vp/test.sh /tmp/plant-vp/out.json", cwd="/tmp/plant")
passed = set(json.load(open("/tmp/plant-vp/out.json"))["passed"])
lost = [t for t in base["stable"] if t not in passed]
if lost:
    print("TESTS FAIL", lost); sys.exit(1)
shutil.rmtree("/tmp/plant-d", ignore_errors=True)
shutil.copytree("/tmp/plant-demo", "/tmp/plant-d")
b = sh("timeout 300 bash /tmp/plant-d/demo.sh", cwd="/tmp/plant")
a = sh("timeout 300 bash /tmp/plant-d/demo.sh", cwd="/repo")
print("clean rc", a.returncode, a.stdout[-300:], a.stderr[-800:])
print("patched rc", b.returncode, b.stdout[-300:], b.stderr[-800:])
if a.returncode != 0 or b.returncode == 0:
    print("DEMO WRONG"); sys.exit(1)
shutil.rmtree(d, ignore_errors=True)
shutil.copytree("/tmp/plant-demo", d)
open(f"{d}/patch.diff", "w").write(diff)
m = json.load(open(f"{d}/meta.json")); m["property"] = prop
json.dump(m, open(f"{d}/meta.json", "w"), indent=1)
print("kept", d)
