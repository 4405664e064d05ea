"""Development tool (no check uses it): verify planted bugs in scratch copies.

    python3 tools/plant.py ID [ID...]     confirm the bugs in seeded/ID and run
                                          the check of their property on them
    options: --no-tests  --props F01,F02  --jobs N

Each bug runs in a mount namespace in which a scratch copy of /repo lies at
/repo; the real /repo is never touched.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SCRIPT = r'''
mount --bind "$W/repo" /repo && mount --bind "$W/verif" /verif || exit 9
cd /repo
bash /opt/vp/build.sh > "$W/build0.log" 2>&1 || { echo build0=fail; exit; }
(cd /repo && timeout 300 bash "$D/demo.sh" > "$W/demo0.log" 2>&1); echo demo0=$?
git apply --check "$P" && git apply "$P" || { echo apply=fail; exit; }
bash /opt/vp/build.sh > "$W/build1.log" 2>&1 || { echo build1=fail; exit; }
(cd /repo && timeout 300 bash "$D/demo.sh" > "$W/demo1.log" 2>&1); echo demo1=$?
if [ "$TESTS" = 1 ]; then bash /opt/vp/test.sh "$W/t.json" > "$W/t.log" 2>&1; fi
for p in $PROPS; do
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick VERIF_NPROC=$NP timeout 900 bash bin/check $p quick > "$W/check_$p.log" 2>&1); echo check_$p=$?
done
'''


def one(bug, a):
    src = os.path.join(HERE, "seeded", bug)
    w = f"/tmp/plant/{bug}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
    subprocess.check_call(["git", "-C", w + "/repo", "checkout", "-q", "--", "."])
    subprocess.check_call(["cp", "-a", HERE, w + "/verif"])
    shutil.copytree(src, w + "/demo")
    for f in ("patch.diff", "meta.json"):
        os.remove(f"{w}/demo/{f}")
    meta = json.load(open(src + "/meta.json"))
    props = a.props.split(",") if a.props else [meta["property"]]
    env = dict(os.environ, W=w, D=w + "/demo", P=w + "/p.diff", TESTS=str(int(not a.no_tests)),
               PROPS=" ".join(props), NP=str(a.np))
    shutil.copy(src + "/patch.diff", w + "/p.diff")
    r = subprocess.run(["unshare", "-m", "bash", "-c", SCRIPT], env=env, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.split()
    if not a.no_tests and os.path.exists(w + "/t.json"):
        t = json.load(open(w + "/t.json"))
        b = json.load(open("/opt/vp/BASELINE.json"))
        miss = sorted(set(b["stable"]) - set(t["passed"]))
        out.append("tests=" + ("ok" if not miss else "FAIL:" + ",".join(miss[:3])))
    if not a.keep:
        shutil.rmtree(w + "/repo", ignore_errors=True)
        shutil.rmtree(w + "/verif", ignore_errors=True)
    print(bug, *out, flush=True)


ap = argparse.ArgumentParser()
ap.add_argument("bugs", nargs="*")
ap.add_argument("--no-tests", action="store_true")
ap.add_argument("--props")
ap.add_argument("--jobs", type=int, default=4)
ap.add_argument("--np", type=int, default=3)
ap.add_argument("--keep", action="store_true")
a = ap.parse_args()
bugs = a.bugs or sorted(os.listdir(HERE + "/seeded"))
with ThreadPoolExecutor(a.jobs) as ex:
    for f in [ex.submit(one, b, a) for b in bugs]:
        f.result()
