"""Shared machinery of the checks: builds /repo's working tree, drives it, runs TLC, writes evidence."""
import ctypes, fcntl, glob, hashlib, json, os, random, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
TLACM = "/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)

CONFIGS = {
    "scalar": ["-DCMAKE_BUILD_TYPE=Debug"],
    "simd": ["-DCMAKE_BUILD_TYPE=Debug", "-DMBELIB_ENABLE_SIMD=ON"],
    "release": ["-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_C_FLAGS_RELEASE=-O3", "-DMBELIB_ENABLE_SIMD=ON",
                "-DMBELIB_ENABLE_FAST_MATH=ON", "-DMBELIB_ENABLE_LTO=ON"],
    "relscalar": ["-DCMAKE_BUILD_TYPE=Release"],
    "fastscalar": ["-DCMAKE_BUILD_TYPE=Release", "-DMBELIB_ENABLE_FAST_MATH=ON", "-DMBE_ENABLE_DEBUG_LOGS=ON"],
    "logs": ["-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DMBE_ENABLE_DEBUG_LOGS=ON", "-DMBELIB_STRICT_ORDER=ON", "-DMBELIB_ENABLE_LTO=ON"],
    "notonesimd": ["-DCMAKE_BUILD_TYPE=MinSizeRel", "-DNOTONES=ON", "-DMBELIB_ENABLE_SIMD=ON"],
    "clang": ["-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_C_COMPILER=clang", "-DCMAKE_C_FLAGS=-Wno-error=implicit-function-declaration", "-DMBELIB_ENABLE_SIMD=ON", "-DMBELIB_STRICT_ORDER=ON"],
    "notones": ["-DCMAKE_BUILD_TYPE=Debug", "-DNOTONES=ON"],
    "asan": ["-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_C_FLAGS=-fsanitize=float-cast-overflow -fno-sanitize-recover=all", "-DMBELIB_ENABLE_ASAN=ON", "-DMBELIB_ENABLE_UBSAN=ON"],
    "asansimd": ["-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_C_FLAGS=-fsanitize=float-cast-overflow -fno-sanitize-recover=all", "-DMBELIB_ENABLE_ASAN=ON", "-DMBELIB_ENABLE_UBSAN=ON", "-DMBELIB_ENABLE_SIMD=ON"],
    "msan": ["-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_C_COMPILER=clang", "-DCMAKE_C_FLAGS=-fsanitize=memory -fno-omit-frame-pointer -g -O1 -Wno-error -Wno-error=implicit-function-declaration"],
    "msansimd": ["-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_C_COMPILER=clang", "-DCMAKE_C_FLAGS=-fsanitize=memory -fno-omit-frame-pointer -g -O1 -Wno-error -Wno-error=implicit-function-declaration", "-DMBELIB_ENABLE_SIMD=ON"],
    "tsan": ["-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_C_FLAGS=-fsanitize=thread -g", "-DMBELIB_ENABLE_SIMD=ON"],
}


SAN = {"asan": ["gcc", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"], "tsan": ["gcc", "-fsanitize=thread"],
       "msan": ["clang", "-fsanitize=memory"]}
SAN["asansimd"], SAN["msansimd"] = SAN["asan"], SAN["msan"]


class ModelError(Exception):
    """The check itself failed (not the code under test)."""


class ImplCrash(Exception):
    """The code under test crashed or hung, repeatably."""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in ("src", "include", "cmake", "bench", "examples", "tests"):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, f) for f in os.listdir(REPO) if os.path.isfile(os.path.join(REPO, f))]
    files += glob.glob(os.path.join(VERIF, "harness", "*"))
    for f in sorted(files):
        h.update(f.encode()); h.update(b"\0")
        try:
            with open(f, "rb") as fh: h.update(fh.read())
        except OSError: pass
    return h.hexdigest()[:16]


def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def classes():
    """Compile java/*.java once; returns the class directory."""
    src = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in src)).hexdigest()[:12]
    out = os.path.join(BUILD, "classes-" + h)
    with lock("classes"):
        if not os.path.exists(os.path.join(out, "ok")):
            os.makedirs(out, exist_ok=True)
            rc, o = sh(["javac", "-nowarn", "-cp", TLAJAR, "-d", out] + src)
            if rc: raise ModelError("javac: " + o)
            open(os.path.join(out, "ok"), "w").close()
    return out


def build(cfg):
    """Build the library of /repo's working tree in configuration cfg. Returns its directory."""
    h = tree_hash()
    out = os.path.join(BUILD, "lib", cfg + "-" + h)
    with lock("lib-" + cfg):
        if os.path.exists(os.path.join(out, "ok")): return out
        # keep at most two old trees per configuration
        old = sorted(glob.glob(os.path.join(BUILD, "lib", cfg + "-*")), key=os.path.getmtime)
        for o in old[:-2]: shutil.rmtree(o, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        rc, o = sh(["cmake", "-S", REPO, "-B", out, "-G", "Ninja", "-DMBELIB_BUILD_TESTS=OFF",
                    "-DMBELIB_BUILD_EXAMPLES=OFF"] + CONFIGS[cfg])
        if rc: raise ModelError("cmake failed: " + o[-2000:])
        san = cfg in SAN
        rc, o = sh(["ninja", "-C", out, "mbe-static" if san else "mbe-shared"])
        if rc: raise ModelError("build failed: " + o[-3000:])
        inc = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(out, "include")]
        if san:
            rc, o = sh(SAN[cfg] + ["-g", "-O1", "-pthread"] + inc +
                       [os.path.join(VERIF, "harness", "replay.c"), glob.glob(os.path.join(out, "*.a"))[0],
                        "-lm", "-o", os.path.join(out, "replay")])
        else:
            so = [f for f in glob.glob(os.path.join(out, "*.so"))][0]
            rc, o = sh(["gcc", "-O2", "-fPIC", "-shared"] + inc +
                       [os.path.join(VERIF, "harness", "vp.c"), so, "-Wl,-rpath," + out, "-o", os.path.join(out, "vp.so")])
            if not rc: rc, o = sh(["gcc", "-O2", "-fPIC", "-shared", os.path.join(VERIF, "harness", "oom.c"), "-o", os.path.join(out, "oom.so")])
        if rc: raise ModelError("harness build failed: " + o[-3000:])
        open(os.path.join(out, "ok"), "w").close()
    return out


def build_all(cfgs):
    with ThreadPoolExecutor(len(cfgs)) as ex:
        return dict(zip(cfgs, ex.map(build, cfgs)))


# ---------------------------------------------------------------- driving the library
class Lib:
    """ctypes binding of one built library. Records are raw buffers of 32-bit words."""
    CODECS = {"i72": (8, 23, 88), "i71": (7, 24, 88), "a50": (4, 24, 49), "a00": (4, 24, 49)}

    def __init__(self, dirname):
        self.dir = os.path.basename(dirname)
        self.vp = ctypes.CDLL(os.path.join(dirname, "vp.so"))
        so = [f for f in glob.glob(os.path.join(dirname, "*.so")) if os.path.basename(f) not in ("vp.so", "oom.so")][0]
        self.l = ctypes.CDLL(so)
        self.vp.vp_layout.restype = ctypes.c_char_p
        parts = self.vp.vp_layout().decode().split(";")
        self.size = int(parts[0])
        self.layout = {}
        for p in parts[1:]:
            n, o, s = p.split(":")
            self.layout[n] = (int(o) // 4, int(s) // 4)
        for f in ("vp_golay", "vp_hamming", "vp_scramble", "vp_scramble_mix", "vp_convert", "vp_pred", "vp_again"): getattr(self.vp, f).restype = ctypes.c_long
        l = self.l
        l.mbe_versionString.restype = ctypes.c_char_p
        self.vp.vp_macro_version.restype = ctypes.c_char_p
        l.mbe_printVersion.argtypes = [ctypes.c_void_p]; l.mbe_printVersion.restype = None
        P, I = ctypes.c_void_p, ctypes.c_int
        self.proc = {
            ("i72", "F", "f"): l.mbe_processImbe7200x4400Framef, ("i72", "F", "s"): l.mbe_processImbe7200x4400Frame,
            ("i71", "F", "f"): l.mbe_processImbe7100x4400Framef, ("i71", "F", "s"): l.mbe_processImbe7100x4400Frame,
            ("a50", "F", "f"): l.mbe_processAmbe3600x2450Framef, ("a50", "F", "s"): l.mbe_processAmbe3600x2450Frame,
            ("a00", "F", "f"): l.mbe_processAmbe3600x2400Framef, ("a00", "F", "s"): l.mbe_processAmbe3600x2400Frame,
            ("i72", "D", "f"): l.mbe_processImbe4400Dataf, ("i72", "D", "s"): l.mbe_processImbe4400Data,
            ("i71", "D", "f"): l.mbe_processImbe4400Dataf, ("i71", "D", "s"): l.mbe_processImbe4400Data,
            ("a50", "D", "f"): l.mbe_processAmbe2450Dataf, ("a50", "D", "s"): l.mbe_processAmbe2450Data,
            ("a00", "D", "f"): l.mbe_processAmbe2400Dataf, ("a00", "D", "s"): l.mbe_processAmbe2400Data,
        }
        for k, f in self.proc.items():
            f.restype = None
            f.argtypes = [P] * 9 + [I] if k[1] == "F" else [P] * 8 + [I]
        self.ecc0 = {"i72": l.mbe_eccImbe7200x4400C0, "i71": l.mbe_eccImbe7100x4400C0,
                     "a50": l.mbe_eccAmbe3600x2450C0, "a00": l.mbe_eccAmbe3600x2400C0}
        self.demod = {"i72": l.mbe_demodulateImbe7200x4400Data, "i71": l.mbe_demodulateImbe7100x4400Data,
                      "a50": l.mbe_demodulateAmbe3600x2450Data, "a00": l.mbe_demodulateAmbe3600x2400Data}
        self.eccd = {"i72": l.mbe_eccImbe7200x4400Data, "i71": l.mbe_eccImbe7100x4400Data,
                     "a50": l.mbe_eccAmbe3600x2450Data, "a00": l.mbe_eccAmbe3600x2400Data}
        self.decode = {"i72": l.mbe_decodeImbe4400Parms, "a50": l.mbe_decodeAmbe2450Parms,
                       "a00": l.mbe_decodeAmbe2400Parms}
        for t in (self.demod,):
            for f in t.values(): f.argtypes = [P]; f.restype = None
        for f in self.ecc0.values(): f.argtypes = [P]; f.restype = I
        for f in self.eccd.values(): f.argtypes = [P, P]; f.restype = I
        for f in self.decode.values(): f.argtypes = [P, P, P]; f.restype = I
        l.mbe_convertImbe7100to7200.argtypes = [P]; l.mbe_convertImbe7100to7200.restype = None
        l.mbe_initMbeParms.argtypes = [P, P, P]; l.mbe_initMbeParms.restype = None
        l.mbe_spectralAmpEnhance.argtypes = [P]; l.mbe_spectralAmpEnhance.restype = None
        l.mbe_synthesizeSpeechf.argtypes = [P, P, P, I]; l.mbe_synthesizeSpeechf.restype = None
        l.mbe_synthesizeSpeech.argtypes = [P, P, P, I]; l.mbe_synthesizeSpeech.restype = None
        l.mbe_floattoshort.argtypes = [P, P]; l.mbe_floattoshort.restype = None
        l.mbe_synthesizeComfortNoisef.argtypes = [P]; l.mbe_synthesizeComfortNoisef.restype = None
        l.mbe_synthesizeComfortNoise.argtypes = [P]; l.mbe_synthesizeComfortNoise.restype = None
        l.mbe_synthesizeSilencef.argtypes = [P]; l.mbe_synthesizeSilencef.restype = None
        l.mbe_synthesizeSilence.argtypes = [P]; l.mbe_synthesizeSilence.restype = None
        l.mbe_setThreadRngSeed.argtypes = [ctypes.c_uint32]; l.mbe_setThreadRngSeed.restype = None
        l.mbe_applyAdaptiveSmoothing.argtypes = [P, P]; l.mbe_applyAdaptiveSmoothing.restype = None
        l.mbe_synthesizeTonef.argtypes = [P, P, P]; l.mbe_synthesizeTonef.restype = None
        l.mbe_synthesizeTonefdstar.argtypes = [P, P, P, I]; l.mbe_synthesizeTonefdstar.restype = None
        for n in ("mbe_requiresMuting", "mbe_isMaxFrameRepeat", "mbe_requiresAdaptiveSmoothing"):
            getattr(l, n).argtypes = [P]; getattr(l, n).restype = I
        l.mbe_moveMbeParms.argtypes = [P, P]; l.mbe_moveMbeParms.restype = None
        l.mbe_useLastMbeParms.argtypes = [P, P]; l.mbe_useLastMbeParms.restype = None

    @staticmethod
    def aligned(n, fill=0):
        """A buffer at a 64-byte boundary: vectorised code may round differently at other alignments."""
        raw = ctypes.create_string_buffer(n + 64)
        off = -ctypes.addressof(raw) % 64
        b = (ctypes.c_char * n).from_buffer(raw, off)
        if fill: ctypes.memset(b, fill, n)
        return b

    def parms(self, fill=0):
        b = self.aligned(self.size)
        if fill: ctypes.memset(b, fill, self.size)
        return b

    def stream(self):
        s = [self.parms(), self.parms(), self.parms()]
        self.l.mbe_initMbeParms(*s)
        return s

    def words(self, p):
        return struct.unpack("<%di" % (self.size // 4), p.raw)

    def get(self, p, name):
        o, n = self.layout[name]
        v = struct.unpack_from("<%di" % n, p.raw, o * 4)
        return v[0] if n == 1 else list(v)

    def getf(self, p, name, i=0):
        o, n = self.layout[name]
        return struct.unpack_from("<f", p.raw, (o + i) * 4)[0]

    def seti(self, p, name, v, i=0):
        struct.pack_into("<i", p, (self.layout[name][0] + i) * 4, v)

    def setf(self, p, name, v, i=0):
        struct.pack_into("<f", p, (self.layout[name][0] + i) * 4, v)

    def rec(self, p, fields):
        w = self.words(p)
        r = {}
        for f in fields:
            o, n = self.layout[f]
            r[f] = w[o] if n == 1 else list(w[o:o + n])
        return r

    def process(self, codec, kind, fmt, bits, st, errs=0, errs2=0, uvq=3, room=None):
        """One process call. bits: frame cells or parameter bits. Returns a dict of everything observable."""
        rows, cols, nd = self.CODECS[codec]
        f = self.proc[(codec, kind, fmt)]
        out = self.aligned(640 if fmt == "f" else 320)
        e, e2 = ctypes.c_int(errs), ctypes.c_int(errs2)
        room = 512 if room is None else room
        s = ctypes.create_string_buffer(b"\x7e" * room, room)
        if kind == "F":
            fr = ctypes.create_string_buffer(bytes(bits), rows * cols)
            d = ctypes.create_string_buffer(b"\x02" * nd, nd)
            f(out, ctypes.byref(e), ctypes.byref(e2), s, fr, d, st[0], st[1], st[2], uvq)
            frout, dout = list(fr.raw), list(d.raw)
        else:
            d = ctypes.create_string_buffer(bytes(bits), nd)
            f(out, ctypes.byref(e), ctypes.byref(e2), s, d, st[0], st[1], st[2], uvq)
            frout, dout = [], list(d.raw)
        text = s.raw.split(b"\0")[0].decode("latin1")
        tail_ok = all(c == 0x7e for c in s.raw[max(len(text) + 1, e2.value + 3):])
        if fmt == "f": pcm = list(struct.unpack("<160i", out.raw))
        else: pcm = list(struct.unpack("<160h", out.raw))
        return {"errs": e.value, "errs2": e2.value, "str": text, "tail": 1 if tail_ok else 0,
                "fr": frout, "d": dout, "pcm": pcm}


def f2b(x):
    return struct.unpack("<i", struct.pack("<f", x))[0]


def b2f(i):
    return struct.unpack("<f", struct.pack("<i", i))[0]


# ---------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r"(\d+) states checked", out.replace(",", ""))
            if m: self.generated = int(m[-1])


def tlc(module, cfg=None, env=None, workers=1, timeout=600, args=(), heap="3g", quickjit=False):
    work = tempfile.mkdtemp(prefix="tlc-", dir=tmpdir())
    try:
        for f in glob.glob(os.path.join(SPEC, "*.tla")) + glob.glob(os.path.join(SPEC, "*.cfg")):
            os.symlink(f, os.path.join(work, os.path.basename(f)))
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env: e.update({k: str(v) for k, v in env.items()})
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"]
        if quickjit: cmd.append("-XX:TieredStopAtLevel=1")
        cmd += ["-Djava.io.tmpdir=" + work, "-cp", ":".join([classes(), TLAJAR, TLACM]), "tlc2.TLC",
                "-workers", str(workers), "-metadir", os.path.join(work, "states"), "-noGenerateSpecTE",
                "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
            rc, o = r.returncode, r.stdout
        except subprocess.TimeoutExpired as ex:
            rc, o = 124, (ex.stdout or b"").decode("latin1") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
        o = "\n".join(x for x in o.splitlines() if not x.startswith(("Parsing file", "Semantic processing", "Loading ", "Linting of")))
        return TlcResult(rc, o, time.time() - t)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def tmpdir():
    d = os.path.join(BUILD, "tmp")
    os.makedirs(d, exist_ok=True)
    return d


EVAL_ERRORS = (75, 76, 77)


def validate(module, trace, timeout=600, heap="3g", env=None, quickjit=None):
    """Trace validation. Returns (accepted, TlcResult, reason). Raises ModelError when the check itself failed."""
    e = {"TRACE": trace}
    if env: e.update(env)
    if quickjit is None: quickjit = os.environ.get("VERIF_TIER", "quick") != "thorough"
    r = tlc(module, env=e, timeout=timeout, heap=heap, quickjit=quickjit)
    if r.rc == 0 and "TRACE-ACCEPTED" in r.out: return True, r, ""
    if "TRACE-REJECTED" in r.out or r.rc in EVAL_ERRORS or r.rc in (12, 13):
        fails = re.findall(r"<<\s*\"FAIL\".*?>>(?=\n|$)", r.out, re.S)
        rej = re.findall(r"<<\"TRACE-REJECTED\",[^>]*>>", r.out)
        why = "; ".join(x.replace("\n", " ")[:600] for x in fails[-3:]) or ""
        if rej: why += " " + rej[-1]
        if r.rc in EVAL_ERRORS and not fails: why += " (specification undefined on the recorded values) " + r.out[-1500:].replace("\n", " ")
        return False, r, why.strip()
    raise ModelError("TLC rc=%d on %s: %s" % (r.rc, module, r.out[-3000:]))


# ---------------------------------------------------------------- checks
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.viol = []
        self.known = self._known()
        self.known_hits = []
        self.dir = os.path.join(BUILD, "run" if REPO == "/repo" else "run-other", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)

    @property
    def quick(self): return self.tier != "thorough"

    def _known(self):
        k = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.pid: k.append((m.group(2), m.group(3)))
        return k

    def count(self, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += max(0, r.generated - 1)

    def sample(self, s):
        if len(self.cov["samples"]) < 12: self.cov["samples"].append(s if isinstance(s, (dict, list)) else str(s)[:800])

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, what, replay=None, key=None):
        for k, text in self.known:
            if key == k:
                self.known_hits.append(text)
                return
        if replay is None:
            replay = os.path.join(self.dir, "violation-%d.txt" % len(self.viol))
            with open(replay, "w") as f: f.write(what + "\n")
        self.viol.append((what, replay))

    def model(self, module, cfg=None, expect_ok=True, workers=1, timeout=600, env=None, args=(), heap="3g"):
        """Model-check a specification module by itself (no implementation involved)."""
        r = tlc(module, cfg, env, workers, timeout, args, heap)
        if r.rc != 0: raise ModelError("model %s/%s: rc=%d\n%s" % (module, cfg, r.rc, r.out[-3000:]))
        self.count(r)
        return r

    def finish(self):
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for t in sorted(set(self.known_hits)): print("KNOWN-FINDING: property=%s %s" % (self.pid, t))
        for what, rep in self.viol[:5]:
            print("  " + what[:1500])
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
        print("%s %s: %s in %.1fs states=%d transitions=%d traces=%d" % (
            self.pid, ev["tier"], "VIOLATED" if self.viol else "held", ev["wall_s"], self.cov.get("states", 0),
            self.cov.get("transitions", 0), self.cov.get("traces_validated_against_impl", 0)))
        sys.exit(1 if self.viol else 0)


def drive(script, libdir, out, seed, tier, shard, nshards, timeout=120):
    """Run checks/<script>.py's drive() in a child process (so that a crash of the library is an observation)."""
    cmd = [sys.executable, os.path.join(VERIF, "lib", "drive.py"), script, libdir, out, str(seed), tier, str(shard), str(nshards)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def trace_check(c, script, module, cfgs, nshards, heap="3g", timeout=700, drive_timeout=120, env=None):
    """Drive nshards executions of the library (drivers pick their codec by shard mod 2 or 4: the
    configuration rotates, so that every codec meets every configuration) and validate each trace."""
    if c.viol and c.quick: return []          # already decided: a further stage adds nothing
    dirs = build_all(sorted(set(cfgs)))
    classes()

    def one(i):
        cfg = cfgs[(i + (i // 4 if len(cfgs) in (2, 4) else 0)) % len(cfgs)]
        out = os.path.join(c.dir, "%s-%s-%d.ndjson" % (script, cfg, i))
        rc, o = drive(script, dirs[cfg], out, c.seed, c.tier, i, nshards, drive_timeout)
        if rc != 0:
            rc2, o2 = drive(script, dirs[cfg], out, c.seed, c.tier, i, nshards, drive_timeout)
            if rc2 != 0:
                if rc2 < 0 or rc2 == 124:
                    return ("crash", cfg, out, "library crashed or hung (status %d) while driven: %s" % (rc2, o2[-500:]), None, 0)
                raise ModelError("driver failed: rc=%d %s" % (rc2, o2[-3000:]))
        n = sum(1 for _ in open(out))
        ok, r, why = validate(module, out, timeout=timeout, heap=heap, env=env)
        if not ok:
            # a rejection counts only if a fresh execution of the code is rejected again
            drive(script, dirs[cfg], out, c.seed, c.tier, i, nshards, drive_timeout)
            ok, r, why = validate(module, out, timeout=timeout, heap=heap, env=env)
        return ("ok" if ok else "reject", cfg, out, why, r, n)

    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, range(nshards)))
    for kind, cfg, out, why, r, n in res:
        if r: c.count(r)
        if kind == "ok":
            c.add("traces_validated_against_impl")
            c.add("events", n)
            if len(c.cov["samples"]) < 3:
                with open(out) as f: c.sample(f.readline()[:700])
            os.unlink(out)
        else:
            c.violation("[%s] %s" % (cfg, why), out)
    return res


class Trace:
    def __init__(self, path): self.f = open(path, "w")
    def ev(self, **kw): self.f.write(json.dumps(kw, separators=(",", ":")) + "\n")
    def close(self): self.f.close()


def main(fn, pid, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
        c.finish()
    except ModelError as e:
        print("CHECK-ERROR %s: %s" % (pid, str(e)[:4000]))
        sys.exit(2)
