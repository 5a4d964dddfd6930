"""Writes /verif/seeded/<id>/ from the definitions in tools/seeds_*.py and tests them in a scratch copy.
usage: mkseeds.py [-t] [id...]   (-t: also build, run the project's tests, and the demo, with and without the patch)"""
import glob, importlib.util, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {}
for f in sorted(glob.glob(V + "/tools/seeds_*.py")):
    sp = importlib.util.spec_from_file_location("s", f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for s in m.SEEDS: assert s["id"] not in S; S[s["id"]] = s
DEMO = """#!/bin/bash
# exit 0: the property holds in this demonstration; run with cwd /repo after the build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
B=_build/%s
%sgcc -O1 -w -pthread -I include -I "$d" "$d/demo.c" $B/libmbe-neo.a -lm %s -o "$t/demo" || exit 3
timeout 120 "$t/demo"
"""
OWN = """cmake -S . -B "$t/b" -DCMAKE_BUILD_TYPE=Release -DMBELIB_BUILD_TESTS=OFF -DMBELIB_BUILD_EXAMPLES=OFF %s >/dev/null 2>&1 || exit 3
cmake --build "$t/b" -j4 >/dev/null 2>&1 || exit 3
B="$t/b"
"""
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
W = "/tmp/seedwork"
test = "-t" in sys.argv; ids = [a for a in sys.argv[1:] if a != "-t"] or list(S)
base = None
for i in ids:
    s = S[i]; d = V + "/seeded/" + i
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    if not os.path.exists(W):
        sh("git clone -q /repo %s && cp -a /repo/_build %s/_build" % (W, W))
    sh("git fetch -q origin && git reset -q --hard origin/HEAD", cwd=W); sh("git checkout -q -- .", cwd=W)
    for f, a, b in s["edits"]:
        p = W + "/" + f; t = open(p).read()
        if t.count(a) != s.get("count", 1) and t.count(a) != 1: sys.exit("%s: %d matches in %s of %r" % (i, t.count(a), f, a))
        open(p, "w").write(t.replace(a, b))
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=W).stdout)
    shutil.copy(V + "/tools/seed_common.h", d + "/common.h")
    open(d + "/demo.c", "w").write('#include "common.h"\n' + s["demo"])
    open(d + "/demo.sh", "w").write(DEMO % (s.get("cfg", "dev-debug"), OWN % s["own"] if "own" in s else "", s.get("flags", ""))); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if not test: print(i, "written"); continue
    def bt(tests=True):
        for n in ("build.sh", "test.sh"):
            open("/tmp/seed_" + n, "w").write(open("/opt/vp/" + n).read().replace("/opt/vp/build.sh", "/tmp/seed_build.sh").replace("/repo", W))
        return sh("bash /tmp/seed_%s" % ("test.sh /tmp/seed_out.json" if tests else "build.sh"))
    # rebuilt from a clean cmake cache the first time (paths differ)
    if not os.path.exists(W + "/_build/.own"):
        shutil.rmtree(W + "/_build"); os.makedirs(W + "/_build"); open(W + "/_build/.own", "w").close()
    r = bt(); out = json.load(open("/tmp/seed_out.json"))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad = [t for t in stable if t not in out["passed"]]
    dm = sh("bash %s/demo.sh" % d, cwd=W)
    sh("git checkout -q -- .", cwd=W); bt(False)
    dc = sh("bash %s/demo.sh" % d, cwd=W)
    ok = not bad and dm.returncode not in (0, 3) and dc.returncode == 0
    print(i, "OK" if ok else "BAD", "tests failing:", bad[:3], "demo mutated rc", dm.returncode, dm.stdout.strip()[-200:], "| clean rc", dc.returncode, dc.stdout.strip()[-200:] if dc.returncode else "")
    if not bad or r.returncode: pass
    if "error:" in r.stdout: print(r.stdout[-800:])
