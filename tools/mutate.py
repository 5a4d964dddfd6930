"""Mutation campaign (a development tool; no check uses it).
  mutate.py gen OUT.json [seed]            every small change of the sources' code lines
  mutate.py tests IN.json OUT.json WORKERS  those that build and pass the project's tests (3 configurations)
  mutate.py checks IN.json OUT.json N WORKERS [files...]   which check reports each of N survivors (stops at the first)
Scratch below /tmp/mu."""
import json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = ["src/ambe/ambe3600x2400.c", "src/ambe/ambe3600x2450.c", "src/ambe/ambe_common.c", "src/core/mbe_adaptive.c", "src/core/mbe_unvoiced_fft.c",
     "src/core/mbelib.c", "src/ecc/ecc.c", "src/imbe/imbe7100x4400.c", "src/imbe/imbe7200x4400.c"]
W = os.environ.get("MUTDIR", "/tmp/mu")
NEAR = {
 "ecc": "C01 C02 C03 C25 C24", "ambe_common": "C03 C04 C10 C11 C22 C24 C20 C21",
 "ambe3600x2450": "C07 C10 C12 C13 C20 C03 C18 C21 C22 C24 C23 C16", "ambe3600x2400": "C08 C11 C12 C13 C20 C03 C18 C21 C22 C24 C23 C16",
 "mbe_adaptive": "C13 C17 C25 C09 C21 C24 C23 C10", "mbe_unvoiced_fft": "C16 C17 C15 C21 C24 C23 C19",
 "mbelib": "C15 C14 C18 C19 C22 C25 C17 C16 C23 C24 C20 C21 C09 C12", "imbe7100x4400": "C05 C26 C03 C04 C09 C12 C20 C24 C23", "imbe7200x4400": "C06 C26 C03 C04 C09 C12 C13 C20 C22 C24 C21 C23 C16"}

def code_lines(path):
    src = open(path).read().split("\n"); out = []; com = False; pp = False; depth = 0
    for i, l in enumerate(src):
        s = l.strip()
        if com:
            if "*/" in s: com = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: com = True
            continue
        if s.startswith("#") or pp: pp = s.endswith("\\"); continue
        if s.startswith("//") or not s: continue
        if "fprintf" in s or "static const" in s or "MBE_LOG" in s: continue
        d0 = depth; depth += s.count("{") - s.count("}")
        if d0 > 0: out.append(i)
    return src, out

def variants(l):
    body = l.split("//")[0].split("/*")[0]
    res = []
    def sub(a, b, rep): res.append(body[:a] + rep + body[b:])
    for m in re.finditer(r"(?<![<>=!+\-*/&|^])(<=|>=|==|!=|<|>)(?![<>=])", body):
        if m.group() in "<>" and ("include" in body): continue
        for r in {"<": ["<=", ">"], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="]}[m.group()]: sub(m.start(), m.end(), r)
    for m in re.finditer(r"(?<=[\w\)\]] )([+\-*/])(?= [\w\(])", body):
        sub(m.start(), m.end(), {"+": "-", "-": "+", "*": "+", "/": "*"}[m.group()])
    for m in re.finditer(r"&&|\|\|", body): sub(m.start(), m.end(), "||" if m.group() == "&&" else "&&")
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", body):
        n = int(m.group())
        for r in ({n + 1, n - 1} if n else {1}): sub(m.start(), m.end(), str(r))
    for m in re.finditer(r"(?<![\w.])(\d*\.\d+|\d+\.)(f?)(?!\w)", body):
        x = float(m.group(1)); sub(m.start(), m.end(), ("%.9g" % (x * 1.01 if x else 0.01)) + ("" if "." in "%.9g" % (x * 1.01 if x else .01) else ".0") + m.group(2))
    if re.match(r"^\s*[\w\*\[\]>.\-+ \(\)]+( [+\-*/|^&]?= |\+\+|\().*;\s*$", body) and not re.match(r"^\s*(const |static |int |float |double |uint|char |return|break|goto|size_t|unsigned)", body):
        res.append(re.match(r"^\s*", body).group() + ";")
    m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\) \{\s*)$", body)
    if m: res.append(m.group(1) + "0 && (" + m.group(2) + ")" + m.group(3)); res.append(m.group(1) + "1 || (" + m.group(2) + ")" + m.group(3))
    if re.match(r"^\s*(break|continue);", body): res.append(re.match(r"^\s*", body).group() + ";")
    return sorted(set(r for r in res if r.strip() != body.strip()))

def gen(out, seed=1):
    ms = []
    for f in S:
        src, ls = code_lines("/repo/" + f)
        for i in ls:
            for r in variants(src[i]): ms.append(dict(file=f, line=i, old=src[i], new=r))
    random.Random(seed).shuffle(ms)
    for k, m in enumerate(ms): m["id"] = k
    json.dump(ms, open(out, "w")); print(len(ms), "mutants")

def gentab(out, n, seed=1):
    """single wrong table entries: numeric literals of the constant headers"""
    import re
    rnd = random.Random(seed); ms = []
    F = {"src/internal/imbe7200x4400_const.h": "C06 C05", "src/internal/ambe3600x2450_const.h": "C07", "src/internal/ambe3600x2400_const.h": "C08",
         "src/internal/mbelib_const.h": "C15 C16", "src/core/mbe_unvoiced_fft.c": "C16 C15", "src/ecc/ecc_const.c": "C01 C02 C03"}
    for f, near in F.items():
        src = open("/repo/" + f).read().split("\n"); lits = []
        for i, l in enumerate(src):
            if f.endswith("unvoiced_fft.c") and not 30 < i < 75: continue
            if "[" in l and "=" in l or l.strip().startswith(("#", "/", "*")): continue
            for m in re.finditer(r"(?<![\w.])-?\d+(\.\d+)?(?=f?\b\s*[,}])", l): lits.append((i, m.start(), m.end(), m.group()))
        print(f, len(lits))
        for i, a, b, t in rnd.sample(lits, min(n, len(lits))):
            v = ("%.6f" % (float(t) + rnd.choice([-.02, .02, .1]))) if "." in t else str(int(t) + 1 if int(t) < 1 or rnd.random() < .5 else int(t) - 1)
            ms.append(dict(file=f, line=i, old=src[i], new=src[i][:a] + v + src[i][b:], near=near))
    rnd.shuffle(ms)
    for k, m in enumerate(ms): m["id"] = k
    json.dump(ms, open(out, "w")); print(len(ms), "mutants")

CF = {"dev-debug": [], "dev-debug-simd": ["-DMBELIB_ENABLE_SIMD=ON"], "asan-ubsan-debug": []}
def prepare(k):
    d = "%s/w%d" % (W, k); shutil.rmtree(d, ignore_errors=True)
    subprocess.run("git clone -q /repo " + d, shell=True, check=True)
    for n, o in CF.items():
        p = n if n != "dev-debug-simd" else "dev-debug"
        subprocess.run(["cmake", "--preset", p, "-B", d + "/_build/" + n, "-G", "Ninja"] + o, cwd=d, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run(["ninja", "-j2", "-C", d + "/_build/" + n], check=True, stdout=subprocess.DEVNULL)
    return d

def put(d, m, clean=False):
    p = d + "/" + m["file"]; src = open("/repo/" + m["file"]).read().split("\n")
    if not clean: assert src[m["line"]] == m["old"]; src[m["line"]] = m["new"]
    open(p, "w").write("\n".join(src))

def survives(d, m):
    put(d, m)
    try:
        for n in CF:
            if subprocess.run(["ninja", "-j2", "-C", d + "/_build/" + n], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: return False
            if subprocess.run(["timeout", "40", "ctest", "--test-dir", d + "/_build/" + n, "-j2", "--timeout", "15", "--stop-on-failure"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: return False
        return True
    finally: put(d, m, True)

def pool(items, workers, prep, fn, save):
    free = queue.Queue()
    for k in range(workers): free.put(prep(k))
    def job(m):
        d = free.get()
        try: return m, fn(d, m)
        finally: free.put(d)
    with ThreadPoolExecutor(workers) as ex:
        for m, r in ex.map(job, items): save(m, r)

def tests(inp, out, workers):
    ms = json.load(open(inp)); ok = []; n = [0]
    def save(m, r):
        n[0] += 1
        if r: ok.append(m)
        if n[0] % 50 == 0: json.dump(ok, open(out, "w")); print(n[0], len(ok), flush=True)
    pool(ms, workers, prepare, survives, save)
    json.dump(ok, open(out, "w")); print("done", n[0], len(ok))

def vcopy(k):
    v = "%s/v%d" % (W, k); shutil.rmtree(v, ignore_errors=True)
    subprocess.run("git clone -q %s %s" % (V, v), shell=True, check=True)
    d = "%s/c%d" % (W, k); shutil.rmtree(d, ignore_errors=True)
    subprocess.run("git clone -q /repo " + d, shell=True, check=True)
    return v, d

def caught(vd, m):
    v, d = vd; put(d, m)
    cmds = {c["property"]: c["quick_cmd"] for c in json.load(open(v + "/MANIFEST.json"))["checks"]}
    res = []
    for p in (m.get("near") or NEAR[os.path.basename(m["file"])[:-2]]).split():
        r = subprocess.run(cmds[p], shell=True, cwd=v, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: res.append("%s:%d" % (p, r.returncode))
        if r.returncode == 1: break
    put(d, m, True)
    return res

def checks(inp, out, n, workers, files):
    ms = [m for m in json.load(open(inp)) if not files or any(f in m["file"] for f in files)][:n]
    done = json.load(open(out)) if os.path.exists(out) else []
    have = {x["id"] for x in done}
    def save(m, r):
        done.append(dict(m, res=r)); json.dump(done, open(out, "w"))
        print("%-28s %5d %-12s %s  =>  %s" % (os.path.basename(m["file"]), m["line"] + 1, ",".join(r) or "SURVIVES", m["old"].strip()[:90], m["new"].strip()[:90]), flush=True)
    pool([m for m in ms if m["id"] not in have], workers, vcopy, caught, save)

a = sys.argv
os.makedirs(W, exist_ok=True)
if a[1] == "gen": gen(a[2], int(a[3]) if len(a) > 3 else 1)
elif a[1] == "gentab": gentab(a[2], int(a[3]), int(a[4]))
elif a[1] == "tests": tests(a[2], a[3], int(a[4]))
else: checks(a[2], a[3], int(a[4]), int(a[5]), a[6:])
