#!/usr/bin/env python3
"""seed_run.py [--no-tests] [--checks own|all|C08,C09] [--jobs N] id...
Validates seeded changes in private mount namespaces where a scratch copy of /repo is
bound over /repo: baseline demo, build, the 75 tests, demo with the patch, the checks."""
import sys, os, json, subprocess, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]; ids = []; tests = True; checks = "own"; jobs = 3; base = True
i = 0
while i < len(args):
    if args[i] == "--no-tests": tests = False
    elif args[i] == "--no-base": base = False
    elif args[i] == "--checks": i += 1; checks = args[i]
    elif args[i] == "--jobs": i += 1; jobs = int(args[i])
    else: ids.append(args[i])
    i += 1
if not ids: ids = sorted(os.listdir(os.path.join(V, "seeded")))
man = {c["property"]: c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}
SCRIPT = r'''
set -u
mount --bind "$COPY" /repo || exit 90
mount --bind "$VCOPY" /verif || exit 91
cd /repo
if [ "$BASE" = 1 ]; then bash "$SEED/demo.sh" >"$T/base.log" 2>&1; echo "base $?" >>"$T/res"; fi
git apply "$SEED/patch.diff" || { echo "apply 1" >>"$T/res"; exit 0; }
if ! grep -q '^+++ ' "$SEED/patch.diff"; then echo "empty 1" >>"$T/res"; fi
bash /opt/vp/build.sh >"$T/build.log" 2>&1; echo "build $?" >>"$T/res"
if [ "$TESTS" = 1 ]; then bash /opt/vp/test.sh "$T/tests.json" >"$T/test.log" 2>&1; echo "test $?" >>"$T/res"; fi
bash "$SEED/demo.sh" >"$T/demo.log" 2>&1; echo "demo $?" >>"$T/res"
cd /verif
for c in $CHECKS; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $c --tier quick >"$T/check_$c.log" 2>&1; rc=$?
  v=$(grep -c "^VIOLATION property=$c " "$T/check_$c.log")
  echo "check_$c $rc $v" >>"$T/res"
done
'''
def one(id):
    seed = os.path.join(V, "seeded", id)
    prop = json.load(open(os.path.join(seed, "meta.json")))["property"]
    cs = [prop] if checks == "own" else sorted(man) if checks == "all" else checks.split(",")
    cs = [c for c in cs if c in man]
    T = tempfile.mkdtemp(prefix="seedrun_%s_" % id)
    copy, vcopy, scopy = T + "/repo", T + "/verif", T + "/seed"
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    os.makedirs(vcopy)
    for n in os.listdir(V):
        if n in (".git", "seeded", "evidence", "replays"): continue
        subprocess.run(["cp", "-a", os.path.join(V, n), vcopy], check=True)
    subprocess.run(["cp", "-a", seed, scopy], check=True)
    env = dict(os.environ, COPY=copy, VCOPY=vcopy, SEED=scopy, T=T, TESTS="1" if tests else "0", BASE="1" if base else "0", CHECKS=" ".join(cs))
    r = subprocess.run(["unshare", "-m", "bash", "-c", SCRIPT], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    res = open(T + "/res").read().split("\n") if os.path.exists(T + "/res") else []
    tj = ""
    if tests and os.path.exists(T + "/tests.json"):
        base_ok = json.load(open("/opt/vp/BASELINE.json"))
        tj = open(T + "/tests.json").read()
    fails = []
    if tj:
        d = json.loads(tj)
        p = set(d.get("passed", d if isinstance(d, list) else []))
        b = base_ok.get("passed", base_ok.get("stable", base_ok if isinstance(base_ok, list) else []))
        if isinstance(b, dict): b = list(b)
        fails = [x for x in b if x not in p]
    line = "%s [%s] %s%s" % (id, prop, " ".join("(" + x + ")" for x in res if x), (" TESTFAIL " + ",".join(map(str, fails[:4]))) if fails else "")
    for c in cs:
        f = T + "/check_%s.log" % c
        if os.path.exists(f):
            t = open(f, errors="replace").read()
            k = [l.strip()[:220] for l in t.split("\n") if l.startswith("  ")][:3]
            if ("check_%s 1" % c) in " ".join(res) : line += "\n      %s: %s" % (c, " || ".join(k))
            elif ("check_%s 0" % c) not in " ".join(res): line += "\n      %s ERROR: %s" % (c, t[-600:])
    if r.stdout: line += "\n   " + r.stdout.decode(errors="replace")[-500:]
    for n in ("build.log",):
        if "(build 0)" not in line and os.path.exists(T + "/" + n): line += "\n   " + open(T + "/" + n, errors="replace").read()[-1500:]
    if "(base 0)" not in line and os.path.exists(T + "/base.log"): line += "\n   base: " + open(T + "/base.log", errors="replace").read()[-800:]
    if os.path.exists(T + "/demo.log") and "(demo 0)" not in line: line += "\n   demo: " + open(T + "/demo.log", errors="replace").read()[-300:]
    shutil.rmtree(T, ignore_errors=True)
    print(line, flush=True)
with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, ids))
