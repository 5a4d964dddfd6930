"""C27: refused memory. Histories of two threads come from the specification (GenAlloc); every call also runs from equal
records on a thread that has its memory, and TLC decides what the refused one may differ in (TraceAlloc)."""
import ctypes, hashlib, json, math, os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, frames
from conceal import CLS, copy, ambe_fresh
from noise import Worker

EVERY = 1 << 30


class Call:
    """One library call: its arguments, so that it can be made several times from equal records."""
    def __init__(self, lib, rng, st, kind):
        self.lib, self.seed = lib, rng.getrandbits(32)
        self.st = [copy(lib, p) for p in st.recs]
        self.codec = st.codec
        if kind == "other":
            self.fn = rng.choice(["comfort", "comfort16", "silence", "tone"])
            self.tone = bytes(frames.bits(rng, "a50", "tone"))
            return
        self.fn = rng.choice(["synf", "syns", "Ff", "Fs", "Df", "Ff", "Df"])
        if self.fn[0] in "FD":
            b = frames.bits(rng, st.codec, rng.choice(["voice"] * 4 + CLS[st.codec]))
            self.e, self.e2 = rng.choice([0, 0, 1]), rng.choice([0, 0, 0, 1, 3])
            if self.fn[0] == "F":
                c0 = rng.choice([0, 0, 0, 1]); self.inp = frames.damage(rng, st.codec, frames.encode(lib, st.codec, b), c0, c0 + rng.choice([0, 0, 1]))
            else: self.inp = b

    def run(self, recs=None, fault=(0, 0)):
        """Makes the call; fault = which of its requests are refused. Returns the sound, the other results, the counts."""
        lib, l, fn = self.lib, self.lib.l, self.fn
        l.mbe_setThreadRngSeed(self.seed)
        recs = recs or [copy(lib, p) for p in self.st]
        short = fn in ("syns", "Fs", "comfort16")
        out = lib.aligned(640)
        a = (ctypes.c_void_p * 10)()
        cnt = (ctypes.c_int * 4)()
        n = 160
        ad = ctypes.addressof
        more = b""
        keep = []
        if fn in ("synf", "syns"):
            f, kind = (l.mbe_synthesizeSpeechf, 4) if fn == "synf" else (l.mbe_synthesizeSpeech, 4)
            args = [ad(out), ad(recs[0]), ad(recs[2])]
        elif fn in ("comfort", "comfort16", "silence"):
            f, kind, args = {"comfort": l.mbe_synthesizeComfortNoisef, "comfort16": l.mbe_synthesizeComfortNoise, "silence": l.mbe_synthesizeSilencef}[fn], 1, [ad(out)]
        elif fn == "tone":
            d = ctypes.create_string_buffer(self.tone, 49); keep.append(d)
            f, kind, args = l.mbe_synthesizeTonef, 4, [ad(out), ad(d), ad(recs[0])]
        else:
            rows, cols, nd = lib.CODECS[self.codec]
            f = lib.proc[(self.codec, fn[0], fn[1])]
            e, e2 = ctypes.c_int(self.e), ctypes.c_int(self.e2)
            s = ctypes.create_string_buffer(300)
            d = ctypes.create_string_buffer(b"\0" * nd if fn[0] == "F" else bytes(self.inp), nd)
            keep += [e, e2, s, d]
            args = [ad(out), ad(e), ad(e2), ad(s)]
            if fn[0] == "F": fr = ctypes.create_string_buffer(bytes(self.inp), rows * cols); keep.append(fr); args.append(ad(fr))
            args += [ad(d)] + [ad(p) for p in recs]
            kind = 10 if fn[0] == "F" else 9
        for i, x in enumerate(args): a[i] = x
        OOM.oom_call(kind, ctypes.cast(f, ctypes.c_void_p), a, fault[0], fault[1], cnt)
        for x in keep: more += bytes(x)
        if short: pcm = [16 * v for v in struct.unpack("<160h", out.raw[:320])]; assert max(map(abs, pcm)) <= 16 * 32768
        else:
            v = struct.unpack("<160f", out.raw)
            pcm = [int(round(x * 16)) if math.isfinite(x) and abs(x) < 1e6 else 1 << 30 for x in v]
        return pcm, recs, more, list(cnt)

    def digest(self, recs, more):
        o, c = self.lib.layout["previousUw"]
        h = hashlib.blake2b(more, digest_size=9)
        for p in recs: h.update(p.raw[:o * 4] + p.raw[(o + c) * 4:])
        return h.hexdigest()

    def finite_uw(self, recs):
        o, c = self.lib.layout["previousUw"]
        return 1 if all(math.isfinite(x) and abs(x) < 1e7 for p in recs for x in struct.unpack_from("<%df" % c, p.raw, o * 4)) else 0

    def voiced(self, full, recs):
        """The sound without its unvoiced part, rendered by the library itself with the unvoiced bands' amplitudes at zero
        (and nothing overlapping from the frame before); empty where that rendering cannot be reconstructed."""
        lib = self.lib
        if self.fn in ("comfort", "comfort16", "silence", "tone"): return []
        o, c = lib.layout["previousUw"]
        tries = []
        if self.fn in ("synf", "syns"): tries = [(self.st[0], self.st[2])]
        else:
            before = ambe_fresh(lib) if self.codec[0] == "a" and abs(lib.getf(self.st[1], "mutingThreshold") - .096) > 1e-6 else self.st
            cur = recs[2]                                      # what was synthesized, kept as the enhanced record
            for src in (before[0], before[1], before[2]):
                q = copy(lib, cur)
                for n in ("noiseSeed", "noiseOverlap"):
                    oo, cc = lib.layout[n]
                    q[oo * 4:(oo + cc) * 4] = src[oo * 4:(oo + cc) * 4]
                tries.append((q, before[2]))
        for q, p in tries:
            def render(quiet):
                a, b = copy(lib, q), copy(lib, p)
                if quiet:
                    for i in range(1, 57):
                        if lib.get(a, "Vl")[i] == 0: lib.setf(a, "Ml", 0.0, i)
                    b[o * 4:(o + c) * 4] = b"\0" * (4 * c)
                lib.l.mbe_setThreadRngSeed(self.seed)
                out = lib.aligned(640)
                if self.fn in ("syns", "Fs"):
                    lib.l.mbe_synthesizeSpeech(out, a, b, 3)
                    return [16 * v for v in struct.unpack("<160h", out.raw[:320])]
                lib.l.mbe_synthesizeSpeechf(out, a, b, 3)
                v = struct.unpack("<160f", out.raw)
                return [int(round(x * 16)) if math.isfinite(x) and abs(x) < 1e6 else 1 << 30 for x in v]
            again = render(False)
            if max(abs(x - y) for x, y in zip(again, full)) <= 1: return render(True)
        return []


class Stream:
    def __init__(self, lib, rng):
        self.lib, self.rng = lib, rng
        self.codec = rng.choice(["i72", "i71", "a50", "a00"])
        self.recs = ambe_fresh(lib) if self.codec[0] == "a" and rng.random() < .5 else lib.stream()
        for _ in range(rng.randrange(4)):                       # some history, so that there is something to overlap
            lib.l.mbe_setThreadRngSeed(rng.getrandbits(32))
            lib.process(self.codec, "D", "f", frames.bits(rng, self.codec, "voice"), self.recs)


def drive(lib, t, rng, tier, shard, nshards):
    global OOM
    so = os.path.join(os.path.dirname(lib.vp._name), "oom.so")
    if os.environ.get("LD_PRELOAD") != so:
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, LD_PRELOAD=so))
    OOM = ctypes.CDLL(so)
    assert ctypes.CDLL(None).oom_call
    with open(os.environ["HISTS"]) as f: hists = [json.loads(x) for x in f]
    mine = hists[shard::nshards]
    mine = rng.sample(mine, min(len(mine), 500 if tier == "thorough" else 60))
    ref = Worker()                                              # a thread that has its memory
    fresh = Worker()                                            # what a complete thread holds
    fresh.do(lambda: lib.l.mbe_setThreadRngSeed(1))
    held = 0
    for _ in range(12):
        c = ref.do(lambda: Call(lib, rng, Stream(lib, rng), "speech" if _ % 3 else "other"))
        cnt = fresh.do(c.run)[3]; held += cnt[2] - cnt[3]
    fresh.stop()
    t.ev(op="whole", held=held)
    def history(h, extra):
        ws = {1: Worker(), 2: Worker()}
        sts = {1: None, 2: None}
        for i in ws:
            t.ev(op="thread", th=i)
            ws[i].do(lambda: lib.l.mbe_setThreadRngSeed(1))      # the thread's variables exist from here on
            sts[i] = ref.do(lambda: Stream(lib, rng))
        for th, kind, fault in h:
            if kind == "many":                                   # refused calls nobody looks at but for the memory they keep
                c = Call(lib, rng, sts[th], "speech")
                def many():
                    sm = [0] * 4
                    for i in range(fault):
                        x = c.run(fault=rng.choice([(1, EVERY), (1, EVERY), (rng.randrange(1, 8),) * 2]) if extra else (0, 0))[3]
                        sm = [a + b for a, b in zip(sm, x)]
                    return sm
                cnt = ws[th].do(many)
                t.ev(op="many", th=th, fn=c.codec + c.fn, n=fault, tried=cnt[0], failed=cnt[1], got=cnt[2], freed=cnt[3])
                continue
            fa = (0, 0) if fault == 0 else (fault, fault) if fault <= PARTS else (1, EVERY)
            if fault and extra: fa = rng.choice([fa, (rng.randrange(1, 9), EVERY), (1, rng.randrange(1, 8)), (rng.randrange(1, 9),) * 2])
            st = sts[th]
            c = Call(lib, rng, st, kind)
            full, r0, m0, _ = ref.do(c.run)
            pcm, r1, m1, cnt = ws[th].do(lambda: c.run(fault=fa))
            v = ref.do(lambda: c.voiced(full, r0)) if cnt[1] else []
            t.ev(op="call", th=th, fn=c.codec + c.fn, tried=cnt[0], failed=cnt[1], got=cnt[2], freed=cnt[3], pcm=pcm, full=full, voiced=v,
                 res=c.digest(r1, m1), ref=c.digest(r0, m0), uw=c.finite_uw(r1))
            st.recs = r1
        for w in ws.values(): w.stop()
    for h in mine: history(h, False)
    for _ in range(60 if tier == "thorough" else 6):            # longer ones, with other sets of refusals
        h, have = [], {1: False, 2: False}
        for _ in range(rng.choice([5, 12, 20])):
            th = rng.choice([1, 1, 1, 2]); f = rng.choice([0] + list(range(1, PARTS + 2)) * 2) if rng.random() < .9 else 0
            h.append((th, "speech" if rng.random() < .8 else "other", f))
        history(h, True)
    n = [40, 130, 300, 1030][shard % 4]                         # refused for long, then not; and long without refusals
    history([(1, "many", n), (1, "speech", 0), (2, "speech", 0), (2, "many", n), (2, "speech", 0), (2, "speech", PARTS + 1)], True)
    history([(1, "speech", 0), (1, "many", 2 * n), (1, "speech", PARTS + 1), (2, "speech", PARTS + 1), (2, "many", 2), (2, "speech", 0)], False)
    ref.stop()


PARTS = 7


def check(c):
    r = c.model("GenAlloc", workers=1, env={"DEPTH": 3 if c.quick else 4})
    path = os.path.join(c.dir, "hists.ndjson")
    n = 0
    with open(path, "w") as f:
        for line in r.out.splitlines():
            line = line.strip()
            if line.startswith('"['): f.write(json.loads(line) + "\n"); n += 1
    if n < 100: raise vlib.ModelError("no histories: " + r.out[-2000:])
    c.cov["specification histories"] = n
    os.environ["HISTS"] = path
    vlib.trace_check(c, "alloc", "TraceAlloc", ["scalar", "release", "simd", "relscalar"], 16 if c.quick else 32)
    c.assumptions.append("requests are refused at the C library's malloc, calloc, realloc, memalign, aligned_alloc and posix_memalign; a thread's own variables exist before the first refusal")


if __name__ == "__main__": vlib.main(check, "C27")
