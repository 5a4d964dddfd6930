"""C24: what calls touch. Scripts of calls (histories of every codec, steps, direct calls on the records they lead to) run
in builds with the address, undefined-behaviour and memory sanitizers, every argument in memory that ends where the argument
ends; what each call changed is recorded and TLC decides it against the specification's footprints (Footprint)."""
import ctypes, glob, json, os, re, struct, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, frames
from conceal import CLS, ambe_fresh
from pcm import LOUD

FR = {"i72": "mbe_processImbe7200x4400Frame", "i71": "mbe_processImbe7100x4400Frame", "a50": "mbe_processAmbe3600x2450Frame", "a00": "mbe_processAmbe3600x2400Frame"}
DA = {"i72": "mbe_processImbe4400Data", "i71": "mbe_processImbe4400Data", "a50": "mbe_processAmbe2450Data", "a00": "mbe_processAmbe2400Data"}
EX = {"i72": "Imbe7200x4400", "i71": "Imbe7100x4400", "a50": "Ambe3600x2450", "a00": "Ambe3600x2400"}
DE = {"i72": "mbe_decodeImbe4400Parms", "i71": "mbe_decodeImbe4400Parms", "a50": "mbe_decodeAmbe2450Parms", "a00": "mbe_decodeAmbe2400Parms"}
WIDE = {"i72": (207, 0), "i71": (207, 0), "a50": (119, 0), "a00": (117, 0)}   # pitch codes of the most and the fewest bands
PCM, ERRS, ERRS2, STR, FRM, D, C, P, E, X, Y, Z, G = range(13)


class Script:
    def __init__(self, lib, rng, path): self.lib, self.rng, self.f, self.n = lib, rng, open(path, "w"), 0
    def put(self, s): self.f.write(s + "\n"); self.n += 1
    def new(self, k, data=None, size=None, step=4):
        off = self.rng.choice([0, 0, self.rng.randrange(16)]) * step
        self.put("n %d %d %d %s" % (k, len(data) if data is not None else size, off, bytes(data).hex() if data is not None else "-"))
    def int(self, k, v): self.new(k, struct.pack("<i", v))
    def call(self, fn, *a): self.put("x %s %s" % (fn, " ".join(a)))
    def at(self, *ks): return ["@%d" % k for k in ks]

    def start(self):
        for k in (C, P, E): self.new(k, size=self.lib.size)
        self.call("mbe_initMbeParms", *self.at(C, P, E))

    def load(self, k, rec): self.new(k, rec)

    def process(self, codec, kind, fmt, inp, errs, errs2, room):
        r = self.rng
        self.put("x mbe_setThreadRngSeed =%d" % r.getrandbits(32)) if r.random() < .1 else None
        self.new(PCM, size=640 if fmt == "f" else 320, step=4 if fmt == "f" else 2)
        self.new(STR, size=room, step=1)
        suffix = "f" if fmt == "f" else ""
        if r.random() < .3: self.put("c %d %d %d" % (C, C, 4 * r.randrange(16))); self.put("c %d %d %d" % (E, E, 4 * r.randrange(16)))
        if kind == "F":
            self.new(ERRS, size=4); self.new(ERRS2, size=4)
            self.new(FRM, inp, step=1); self.new(D, size=frames.DIM[codec][2], step=1)
            self.call(FR[codec] + suffix, *self.at(PCM, ERRS, ERRS2, STR, FRM, D, C, P, E), "=%d" % r.choice([0, 1, 3, 64]))
        else:
            self.int(ERRS, errs); self.int(ERRS2, errs2); self.new(D, inp, step=1)
            self.call(DA[codec] + suffix, *self.at(PCM, ERRS, ERRS2, STR, D, C, P, E), "=%d" % r.choice([0, 1, 3, 64]))

    def frame(self, codec, cls=None, wild=True):
        """One frame of a history: ordinary, damaged, garbage, or with as many or as few bands as there can be."""
        r, lib = self.rng, self.lib
        fmt = r.choice("ffs")
        n = frames.DIM[codec][2]
        x = r.random()
        b = frames.bits(r, codec, cls or r.choice(CLS[codec]))
        if cls is None and x < .3: frames.setb(b, frames.PITCH[codec], r.choice(WIDE[codec]))
        elif cls is None and x < .4: b = [int(c) for c in LOUD[codec if codec != "i71" else "i72"]][:n]
        if codec == "a50" and cls is None and x < .3 and b[:6] == [1] * 6: b[4] = 0
        y = r.random()
        if y < .15:
            rows, cols, _ = frames.DIM[codec]
            self.process(codec, "F", fmt, [r.getrandbits(1) for _ in range(rows * cols)], 0, 0, 3 + frames.capacity(codec) + 1)
        elif y < .6:
            c0 = r.choice([0, 0, 0, 1, 2, 3]); tot = min(c0 + r.choice([0, 0, 1, 3, 9]), frames.capacity(codec) - 3 + c0)
            self.process(codec, "F", fmt, frames.damage(r, codec, frames.encode(lib, codec, b), c0, tot), 0, 0, tot + 3)
        else:
            e2 = r.choice([0, 0, 1, 2, 3, 4, 6, 9, 15, 200])
            self.process(codec, "D", fmt, b, r.choice([0, 1, 7]), e2, e2 + 3)

    def steps(self, codec):
        """The frame taken apart, and the synthesis steps on copies of the records the history led to."""
        r, rows, cols = self.rng, *frames.DIM[codec][:2]
        n = frames.DIM[codec][2]
        self.new(FRM, [r.getrandbits(1) for _ in range(rows * cols)], step=1)
        if codec in ("i72", "i71"): self.call("mbe_dump%sFrame" % EX[codec], "@%d" % FRM)
        self.call("mbe_ecc%sC0" % EX[codec], "@%d" % FRM)
        self.call("mbe_demodulate%sData" % EX[codec], "@%d" % FRM)
        self.new(D, size=n, step=1)
        self.call("mbe_ecc%sData" % EX[codec], "@%d" % FRM, "@%d" % D)
        if codec == "i71": self.call("mbe_dumpImbe7100x4400Data", "@%d" % D); self.call("mbe_convertImbe7100to7200", "@%d" % D)
        if codec == "i72": self.call(r.choice(["mbe_dumpImbe7200x4400Data", "mbe_dumpImbe4400Data"]), "@%d" % D)
        self.put("c %d %d %d" % (X, C, 4 * r.randrange(4))); self.put("c %d %d %d" % (Y, P, 4 * r.randrange(4))); self.put("c %d %d %d" % (Z, E, 4 * r.randrange(4)))
        self.call(DE[codec], *self.at(D, X, Y))
        self.render()

    def render(self):
        r = self.rng
        if r.random() < .7: self.call("mbe_spectralAmpEnhance", "@%d" % X)
        if r.random() < .5: self.call("mbe_applyAdaptiveSmoothing", "@%d" % X, "@%d" % r.choice([Y, Z]))
        fmt = r.choice("fs")
        self.new(PCM, size=640 if fmt == "f" else 320, step=4 if fmt == "f" else 2)
        self.call("mbe_synthesizeSpeech" + ("f" if fmt == "f" else ""), *self.at(PCM, X, Z), "=3")
        if r.random() < .4: self.call(r.choice(["mbe_requiresMuting", "mbe_isMaxFrameRepeat", "mbe_requiresAdaptiveSmoothing"]), "@%d" % r.choice([X, Y, Z]))
        if r.random() < .3: self.call("mbe_moveMbeParms", "@%d" % X, "@%d" % Y); self.call("mbe_useLastMbeParms", "@%d" % Z, "@%d" % Y)

    def direct(self):
        r = self.rng
        self.new(FRM, [r.getrandbits(1) for _ in range(23)], step=1); self.new(D, size=23, step=1)
        self.call("mbe_golay2312", "@%d" % FRM, "@%d" % D)
        for fn in ("mbe_hamming1511", "mbe_7100x4400hamming1511"):
            self.new(FRM, [r.getrandbits(1) for _ in range(15)], step=1); self.new(D, size=15, step=1)
            self.call(fn, "@%d" % FRM, "@%d" % D)
        self.new(G, struct.pack("<q", r.choice([r.getrandbits(23), r.getrandbits(63), -1 - r.getrandbits(40), r.getrandbits(31)])), step=8); self.call("mbe_checkGolayBlock", "@%d" % G)
        self.new(D, frames.bits(r, "a50", r.choice(["tone", "badtone", "voice"])), step=1)
        self.new(PCM, size=640)
        self.put("c %d %d 0" % (X, C))
        if r.random() < .3: self.put("w %d %d %s" % (X, self.lib.layout["swn"][0] * 4, struct.pack("<i", r.choice([-1, 2147483647, -2147483648, r.getrandbits(31)])).hex()))
        self.call("mbe_synthesizeTonef", *self.at(PCM, D, X))
        self.new(PCM, size=640)
        self.call("mbe_synthesizeTonefdstar", *self.at(PCM, D, X), "=%d" % r.choice([r.randrange(128), -1, 0, 4, 5, 122, 123, 1000000]))
        for fn, n in (("mbe_synthesizeSilence", 320), ("mbe_synthesizeSilencef", 640), ("mbe_synthesizeComfortNoise", 320), ("mbe_synthesizeComfortNoisef", 640)):
            self.new(PCM, size=n, step=n // 160); self.call(fn, "@%d" % PCM)
        self.new(X, size=32, step=1); self.call("mbe_printVersion", "@%d" % X)
        x = [r.choice([0.0, -0.0, 1e-40, 3.4e38, -3.4e38, 4446.95, r.uniform(-9000, 9000)]) for _ in range(160)]
        self.new(FRM, struct.pack("<160f", *x)); self.new(PCM, size=320, step=2)
        self.call("mbe_floattoshort", "@%d" % FRM, "@%d" % PCM)

    def model(self, rec):
        """A model of any number of bands handed to the synthesis steps directly."""
        self.load(X, rec(True)); self.load(Z, rec(False)); self.put("c %d %d 0" % (Y, Z))
        for _ in range(3): self.render()


def fabricate(lib, rng, L):
    p = lib.stream()[1]
    lib.seti(p, "L", L); lib.seti(p, "K", rng.randrange(0, L // 3 + 1))
    w0 = rng.choice([3.14159 / (L + .5), 0.0]) if rng.random() < .1 else 3.14159 / (L + rng.random())
    lib.setf(p, "w0", w0)
    kind = rng.randrange(4)
    for l in range(1, 57):
        lib.seti(p, "Vl", rng.getrandbits(1) if kind else l % 2, l)
        m = [0.0, rng.uniform(0, 5000), 10 ** rng.uniform(-3, 5), 1.0][kind]
        lib.setf(p, "Ml", m, l); lib.setf(p, "log2Ml", 0.0, l)
        lib.setf(p, "PSIl", rng.uniform(-4, 4), l); lib.setf(p, "PHIl", rng.uniform(-4, 4), l)
    lib.setf(p, "noiseSeed", rng.choice([-1.0, 3147.0, 0.0, 53124.0]))
    lib.seti(p, "errorCountTotal", rng.choice([0, 0, 5, 12])); lib.setf(p, "errorRate", rng.choice([0.0, 0.01, 0.05, 0.1]))
    lib.seti(p, "errorCount4", rng.choice([0, 1]))
    return p.raw


ENV = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:strict_string_checks=1", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
       "MSAN_OPTIONS": "exitcode=99:print_stats=0", "TSAN_OPTIONS": "exitcode=66:halt_on_error=0"}


def replay(dirname, args, work, timeout=100):
    """Runs the replay binary; returns its status and what the sanitizers said."""
    err = os.path.join(work, "err")
    with open(err, "w") as f:
        try: rc = subprocess.run([os.path.join(dirname, "replay")] + args, env=dict(os.environ, **ENV), stdout=f, stderr=f, timeout=timeout).returncode
        except subprocess.TimeoutExpired: rc = 124
    with open(err, errors="replace") as f: text = f.read()
    os.unlink(err)
    if not re.search(r"Sanitizer|runtime error", text): text = ""
    return rc, text


def gist(text):
    out = []
    for m in re.finditer(r"(ERROR: |WARNING: |runtime error: )([^\n]*)|^ *#\d+ \S+ in (\S+) ([^\n]*)", text, re.M):
        if m.group(2): out.append(m.group(2)[:140])
        elif m.group(3) and len(out) < 5: out.append(m.group(3))
    return "; ".join(out[:5]) or text[:300]


def drive(lib, t, rng, tier, shard, nshards):
    deep = tier == "thorough"
    dirs = json.loads(os.environ["SANDIRS"])
    cfg = sorted(dirs)[(shard + shard // 4) % len(dirs)]
    work = tempfile.mkdtemp(prefix="mem-", dir=vlib.tmpdir())
    script, out = os.path.join(work, "script"), os.path.join(work, "out")
    s = Script(lib, rng, script)
    again = 1500 if deep else 40
    ks = ["i72", "a50", "i71", "a00"]
    for i in range(4):
        k = ks[(shard + i) % 4]
        s.start()
        if k[0] == "a" and rng.random() < .5:
            for o, rec in zip((C, P, E), ambe_fresh(lib)): s.load(o, rec.raw)
        n0 = s.n
        for j in range(150 if deep else 36):
            s.frame(k)
            if rng.random() < .3: s.steps(k)
        s.put("a %d %d" % (s.n - n0, again)) if i % 2 == shard // 4 % 2 else None
        # switch to another codec without starting over, and back
        for kk in rng.sample(ks, 2):
            for j in range(6): s.frame(kk)
        s.direct()
    for _ in range(20 if deep else 4): s.direct()
    s.start()
    for L in (range(1, 57) if deep else rng.sample(range(1, 57), 10) + [1, 9, 55, 56]):
        a, b = fabricate(lib, rng, L), fabricate(lib, rng, rng.choice([1, L, 9, 56, rng.randrange(1, 57)]))
        s.model(lambda cur: a if cur else b)
    s.f.close()
    rc, text = replay(dirs[cfg], [out, script], work, 800 if deep else 100)
    t.ev(op="cfg", name=cfg, lines=s.n)
    n = 0
    with open(out) as f:
        for l in f:
            if l.endswith("}\n"): t.f.write(l); n += 1
    if rc != 0 or text: t.ev(op="abort", build=cfg, status=rc, report=gist(text), after=n)
    for f in glob.glob(work + "/*"): os.unlink(f)
    os.rmdir(work)


def check(c):
    dirs = vlib.build_all(["asan", "asansimd", "msan", "msansimd", "scalar"])
    dirs.pop("scalar")
    os.environ["SANDIRS"] = json.dumps(dirs)
    vlib.trace_check(c, "memory", "TraceFootprint", ["scalar"], 16 if c.quick else 32, drive_timeout=120 if c.quick else 850)
    c.assumptions.append("undefined operations and stray accesses are observed by the compilers' sanitizers on the executed paths; models handed to the synthesis steps directly have 1..56 bands and finite values")


if __name__ == "__main__": vlib.main(check, "C24")
