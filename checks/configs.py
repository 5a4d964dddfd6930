"""C23: every build decodes alike. Histories toured from the concealment machine are run on all builds: each on records of its
own, and frame by frame from one common state; the public stages too. TLC decides what may differ."""
import ctypes, json, os, random, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, frames, synth
from conceal import CLS, SEEDS, copy, start, tours, dump_edges, ambe_fresh

CFGS = ["scalar", "simd", "release", "relscalar", "fastscalar", "logs", "clang", "notones", "notonesimd"]
INTS = ("L", "K", "repeat", "repeatCount", "errorCountTotal", "errorCount4")
CODECS = ["i72", "a50", "i71", "a00"]


def comp(vals):
    """Distinct contents, the reference build's first, and where each build's content is among them."""
    u, at = [], []
    for v in vals:
        if v not in u: u.append(v)
        at.append(u.index(v) + 1)
    return {"u": u, "at": at}


class Builds:
    def __init__(self, lib):
        d = json.loads(os.environ["CONFIG_DIRS"])
        sys.stderr = os.fdopen(os.dup(2), "w", buffering=1)  # our own errors; builds with debug logs are talkative on 2
        os.dup2(os.open("/dev/null", os.O_WRONLY), 2)
        self.libs = [vlib.Lib(d[c]) for c in CFGS]
        self.tones = [0 if c.startswith("notone") else 1 for c in CFGS]
        self.ref = self.libs[0]

    def record(self, ps):
        g, L = self.ref.get, [self.ref.get(p, "L") for p in ps]
        bands = lambda n: comp([g(p, n)[1:max(0, min(56, l)) + 1] for p, l in zip(ps, L)])
        return {"i": comp([[g(p, n) for n in INTS] for p in ps]), "s": comp([[g(p, n) for n in ("w0", "gamma", "errorRate", "mutingThreshold", "localEnergy")] for p in ps]),
                "t": comp([[g(p, "amplitudeThreshold")] for p in ps]), "x": bands("log2Ml"), "m": bands("Ml"), "v": bands("Vl"),
                "psi": comp([g(p, "PSIl")[1:] for p in ps]), "phi": comp([g(p, "PHIl")[1:] for p in ps]), "uw": comp([g(p, "previousUw") for p in ps]),
                "nz": comp([[g(p, "noiseSeed")] + g(p, "noiseOverlap") for p in ps]), "sw": comp([[g(p, "swn"), g(p, "un")] for p in ps])}


def exact(o): return [o["errs"], o["errs2"], o["str"], o["tail"], o["d"], o["fr"]]


def restarted(lib, codec, st): return codec[0] == "a" and abs(lib.getf(st[1], "mutingThreshold") - .096) > 1e-6


def lockstep(b, t, rng, codec, kind, inp, errs, errs2, st, rc, fmt, seed, uvq):
    """One frame from the state st on every build. Returns the state some build left."""
    ref, outs, states = b.ref, [], []
    for lb in b.libs:
        s = [copy(lb, p) for p in st]
        lb.l.mbe_setThreadRngSeed(seed)
        outs.append(lb.process(codec, kind, fmt, inp, s, errs, errs2, uvq)); states.append(s)
    pre = ambe_fresh(ref) if restarted(ref, codec, st) else st
    o, L = outs[0], ref.get(pre[2], "L")
    t.ev(op="frame", codec=codec, kind=kind, fmt=fmt, tones=b.tones, rc=0 if pre is not st else rc, rate=[ref.get(pre[1], "errorRate")], d=o["d"], errs=o["errs"], errs2=o["errs2"], str=o["str"],
         ex=comp([exact(x) for x in outs]), recs=[b.record([s[i] for s in states]) for i in range(3)], pcm=comp([x["pcm"] for x in outs]),
         pw=ref.get(pre[2], "w0"), pm=ref.get(pre[2], "Ml")[1:L + 1], pv=ref.get(pre[2], "Vl")[1:L + 1], phi0=ref.get(pre[2], "PHIl")[1:])
    return rng.choice(states)


def frame(b, rng, codec, kind, cls, c0, total, c4=None):
    bits = frames.bits(rng, codec, cls)
    if kind == "D": return bits, c0, total
    total = max(c0, min(total, frames.capacity(codec) - (3 - c0)))
    return frames.damage(rng, codec, frames.encode(b.ref, codec, bits), c0, total, c4), 7, 9


def history(b, t, rng, codec, seq, every):
    """The frames of seq on every build with its own records; some of them also from a common state."""
    ref = b.ref
    st0 = start(ref, rng, codec)
    own = [[copy(lb, p) for p in st0] for lb in b.libs]
    first = 1
    for kind, cls, c0, total in seq:
        inp, e1, e2 = frame(b, rng, codec, kind, cls, c0, total, rng.choice([None, 0, 1]))
        seed, uvq, fmt = rng.choice(SEEDS), rng.choice([3, 3, 0, 64]), rng.choice("ffs")
        pre = own[0]
        fresh = restarted(ref, codec, pre)
        rate = 0 if fresh else ref.get(pre[1], "errorRate")
        rc = 0 if fresh else ref.get(pre[1], "repeatCount")
        if rng.random() < every:
            lockstep(b, t, rng, codec, kind, inp, e1, e2, rng.choice(own), rc, fmt, seed, uvq)
        outs = []
        for lb, s in zip(b.libs, own):
            lb.l.mbe_setThreadRngSeed(seed)
            outs.append(lb.process(codec, kind, fmt, inp, s, e1, e2, uvq))
        o = outs[0]
        t.ev(op="own", first=first, codec=codec, kind=kind, tones=b.tones, rc=rc, rate=[rate], d=o["d"], errs=o["errs"], errs2=o["errs2"], str=o["str"],
             ex=comp([exact(x) + [[ref.get(p, n) for p in s for n in INTS]] for x, s in zip(outs, own)]), er=comp([[ref.get(p, "errorRate") for p in s] for s in own]))
        first = 0


def calls(b, t, rng, n):
    ref, N = b.ref, len(b.libs)
    for i in range(n):
        cur, prev = ref.parms(), ref.parms()
        part = rng.choice("vuxmm")
        synth.model(ref, rng, cur, part, loud=rng.choice([1, 1, 1, 40.0]))
        w, L = ref.getf(cur, "w0"), ref.get(cur, "L")
        if rng.random() < .6: synth.model(ref, rng, prev, part, w * rng.choice([1, .95, 1.05, .91, 1.09]), rng.choice([L, L, max(1, L - 1), min(56, L + 1), rng.randrange(1, 57)]))
        else: synth.model(ref, rng, prev, part)
        bands = lambda p, name: ref.get(p, name)[1:ref.get(p, "L") + 1]
        base = dict(op="call", tones=b.tones, w0=ref.get(cur, "w0"), m0=bands(cur, "Ml"), v0=bands(cur, "Vl"))
        k = i % 4
        if k == 0:
            r = [copy(ref, cur) for _ in b.libs]
            for lb, p in zip(b.libs, r): lb.l.mbe_spectralAmpEnhance(p)
            t.ev(fn="enhance", m=comp([bands(p, "Ml") for p in r]), **base)
        if k == 1:
            rate, total, c4 = rng.choice([0, .004, .006, .011, .013, .03, .08]), rng.choice([0, 4, 5, 6, 7, 15]), rng.choice([0, 0, 1])
            ref.setf(cur, "errorRate", rate); ref.seti(cur, "errorCountTotal", total); ref.seti(cur, "errorCount4", c4)
            ref.setf(prev, "localEnergy", rng.choice([75000.0, 9999.0, 1e6, 3e7])); ref.seti(prev, "amplitudeThreshold", rng.choice([20480, 100, 7000]))
            r, q = [copy(ref, cur) for _ in b.libs], [copy(ref, prev) for _ in b.libs]
            for lb, p, x in zip(b.libs, r, q): lb.l.mbe_applyAdaptiveSmoothing(p, x)
            t.ev(fn="smooth", rate=ref.get(cur, "errorRate"), total=total, c4=c4, s=comp([[ref.get(p, "localEnergy")] for p in r]), t=comp([[ref.get(p, "amplitudeThreshold")] for p in r]),
                 v=comp([bands(p, "Vl") for p in r]), m=comp([bands(p, "Ml") for p in r]), **base)
        if k >= 2:
            r, q = [copy(ref, cur) for _ in b.libs], [copy(ref, prev) for _ in b.libs]
            sd, out = rng.getrandbits(32), []
            for lb, p, x in zip(b.libs, r, q):
                f = lb.aligned(640)
                lb.l.mbe_setThreadRngSeed(sd)
                lb.l.mbe_synthesizeSpeechf(f, p, x, 3)
                out.append(list(struct.unpack("<160i", f.raw)))
            g = ref.get
            t.ev(fn="synth", pw=g(prev, "w0"), pm=bands(prev, "Ml"), pv=bands(prev, "Vl"), phi0=g(prev, "PHIl")[1:], psi=comp([g(p, "PSIl")[1:] for p in r]), phi=comp([g(p, "PHIl")[1:] for p in r]),
                 uw=comp([g(p, "previousUw") for p in r]), nz=comp([[g(p, "noiseSeed")] + g(p, "noiseOverlap") for p in r]), pcm=comp(out), **base)
        if i % 5 == 0:
            raw = struct.pack("<160f", *[rng.uniform(-6000, 6000) if rng.random() < .9 else rng.choice([0.0, .5, -.5, 4681.0, 4446.9, -4447.0, 1e9, -1e9]) for _ in range(160)])
            out = []
            for lb in b.libs:
                f, s = lb.aligned(640), lb.aligned(320)
                ctypes.memmove(f, raw, 640)
                lb.l.mbe_floattoshort(f, s)
                out.append(list(struct.unpack("<160h", s.raw)))
            t.ev(fn="short", src=list(struct.unpack("<160i", raw)), pcm=comp(out), **base)
        if i % 5 == 1:
            sd, fmt, out = rng.getrandbits(32), rng.choice("fs"), []
            for lb in b.libs:
                f = lb.aligned(640)
                lb.l.mbe_setThreadRngSeed(sd)
                (lb.l.mbe_synthesizeComfortNoisef if fmt == "f" else lb.l.mbe_synthesizeComfortNoise)(f)
                out.append(list(struct.unpack("<160i", f.raw) if fmt == "f" else struct.unpack("<160h", f.raw[:320])))
            t.ev(fn="noise", fmt=fmt, pcm=comp(out), **base)
        if i % 5 == 2:
            ex = []
            for lb in b.libs:
                s = lb.stream()
                p = copy(lb, cur)
                lb.seti(p, "errorCountTotal", i % 7); lb.setf(p, "errorRate", (i % 11) * .01)
                ex.append([list(lb.words(s[0])), lb.l.mbe_requiresMuting(p), lb.l.mbe_isMaxFrameRepeat(p), lb.l.mbe_requiresAdaptiveSmoothing(p)])
            t.ev(fn="other", ex=comp(ex), **base)


def drive(lib, t, rng, tier, shard, nshards):
    b = Builds(lib)
    deep = tier == "thorough"
    codec = CODECS[shard % 4]
    for lb in b.libs:                                      # consume the start-up seed override
        lb.l.mbe_synthesizeSpeechf(lb.aligned(640), *lb.stream()[:2], 3)
    for w in tours(os.environ["EDGES"], codec, shard // 4, max(1, nshards // 4), rng): history(b, t, rng, codec, w, .5 if deep else .15)
    for _ in range(40 if deep else 4):
        history(b, t, rng, codec, [(rng.choice("FD"), rng.choice(CLS[codec]), 0, rng.choice([0, 0, 0, 1, 2, 3, 4])) for _ in range(30)], .5)
    calls(b, t, rng, 1200 if deep else 160)


def check(c):
    dump_edges(c)
    c.model("MCConfigs")
    d = vlib.build_all(CFGS)
    os.environ["CONFIG_DIRS"] = json.dumps(d)
    vlib.trace_check(c, "configs", "TraceConfigs", ["scalar"], 16 if c.quick else 32, drive_timeout=120 if c.quick else 800)
    c.cov["builds compared"] = CFGS
    c.assumptions.append("x86-64 builds only (gcc and clang, SSE2); sampled payloads; a frame whose rule falls within rounding of a boundary (muting, oscillator choice, band edge) is not compared in the parts that hinge on it")


if __name__ == "__main__": vlib.main(check, "C23")
