"""Runs the quick checks against the planted changes, each in a scratch copy of /repo.
usage: run_seeds.py [-a] [id...]    (-a: every check, not only the one of the seed's property)
Prints one line per seed: which checks reported a violation (exit 1), which gave no answer."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
allc = "-a" in sys.argv; ids = [a for a in sys.argv[1:] if a != "-a"] or sorted(os.listdir(V + "/seeded"))
M = json.load(open(V + "/MANIFEST.json"))
cmds = {c["property"]: c["quick_cmd"] if "quick_cmd" in c else c["quick"] for c in M["checks"]}
W = "/tmp/seedrun"
for i in ids:
    d = V + "/seeded/" + i; prop = json.load(open(d + "/meta.json"))["property"]
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run("git clone -q /repo %s && git -C %s apply %s/patch.diff" % (W, W, d), shell=True, check=True)
    res = {}
    for p, c in cmds.items():
        if not allc and p != prop: continue
        r = subprocess.run(c, shell=True, cwd=V, env=dict(os.environ, VERIF_REPO=W, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: res[p] = r.returncode if r.returncode != 1 or "VIOLATION property=%s " % p not in r.stdout else 1
    print("%-24s %s %s %s" % (i, prop, "CAUGHT" if res.get(prop) == 1 else "MISSED", " ".join("%s%s" % (p, "" if v == 1 else "(rc %s)" % v) for p, v in res.items() if p != prop)), flush=True)
shutil.rmtree(W, ignore_errors=True)
