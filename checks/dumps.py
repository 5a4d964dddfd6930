"""C26: what the library prints. The error and output streams of the driven process are files while the library is called."""
import ctypes, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, frames
from conceal import CLS, copy

FN = {"mbe_dumpImbe4400Data": 88, "mbe_dumpImbe7200x4400Data": 88, "mbe_dumpImbe7100x4400Data": 88, "mbe_dumpImbe7200x4400Frame": 184, "mbe_dumpImbe7100x4400Frame": 168}


class Captured:
    """What a call writes to descriptors 1 and 2 (stdio of the process is flushed on both sides)."""
    def __init__(self):
        self.libc = ctypes.CDLL(None)
        self.f = [open(os.path.join(vlib.tmpdir(), "cap-%d-%d" % (os.getpid(), i)), "w+b") for i in (1, 2)]
        for f in self.f: os.unlink(f.name)

    def __call__(self, fn, *a):
        self.libc.fflush(None); sys.stdout.flush(); sys.stderr.flush()
        old = [os.dup(1), os.dup(2)]
        try:
            for i, f in enumerate(self.f): f.truncate(0); f.seek(0); os.dup2(f.fileno(), i + 1)
            r = fn(*a)
            self.libc.fflush(None)
        finally:
            for i, o in enumerate(old): os.dup2(o, i + 1); os.close(o)
        text = []
        for f in self.f: f.seek(0); text.append(f.read().decode("latin1"))
        return r, text


def drive(lib, t, rng, tier, shard, nshards):
    deep = tier == "thorough"
    cap = Captured()
    for fn, n in FN.items():
        for i in range(400 if deep else 60):
            s = rng.random()
            b = [rng.getrandbits(1) for _ in range(n)] if s < .8 else [0] * n if s < .9 else [1] * n
            if s < .2: b = [0] * n; b[rng.randrange(n)] = 1
            buf = ctypes.create_string_buffer(bytes(b), n)
            _, (out, err) = cap(getattr(lib.l, fn), buf)
            t.ev(fn=fn, bits=b, out=out, err=err, same=1 if list(buf.raw) == b else 0)

    def quiet(fn, f, *a):
        r, (out, err) = cap(f, *a)
        t.ev(fn=fn, bits=[], out=out, err=err, same=1)
        return r
    # everything else: streams of every codec through every entry point, damaged and not; the steps; the helpers
    for k in CLS:
        for h in range(12 if deep else 3):
            st = lib.stream()
            for i in range(20):
                cls = rng.choice(CLS[k]); b = frames.bits(rng, k, cls)
                kind, fmt = rng.choice("FD"), rng.choice("fs")
                if kind == "F":
                    c0 = rng.choice([0, 0, 1, 2, 3]); tot = min(c0 + rng.choice([0, 0, 3, 9]), frames.capacity(k) - 3 + c0)
                    inp = frames.damage(rng, k, frames.encode(lib, k, b), c0, tot)
                    if rng.random() < .2: inp = [rng.getrandbits(1) for _ in inp]
                else: inp = b
                quiet("process " + k + kind + fmt, lib.process, k, kind, fmt, inp, st, 0, rng.choice([0, 2, 5, 9, 17, 64, 129, 300, 500]))
            # runs of one kind of frame, so that repeats reach their limits and everything happens after everything
            for i in range(10 if deep else 5):
                e2 = rng.choice([0, 3, 9, 30, 120, 400]); cls = rng.choice(CLS[k])
                for _ in range(rng.choice([1, 3, 5, 8])):
                    kind, fmt, b = rng.choice("FD"), rng.choice("fs"), frames.bits(rng, k, cls)
                    inp = b if kind == "D" else frames.damage(rng, k, frames.encode(lib, k, b), 3 if e2 > 3 else 0, frames.capacity(k) if e2 > 3 else 0)
                    quiet("process " + k + kind + fmt, lib.process, k, kind, fmt, inp, st, 0, e2)
            rows, cols, nd = lib.CODECS[k]
            fr = ctypes.create_string_buffer(bytes(rng.getrandbits(1) for _ in range(rows * cols)), rows * cols)
            d = ctypes.create_string_buffer(nd)
            quiet("c0 " + k, lib.ecc0[k], fr); quiet("demodulate " + k, lib.demod[k], fr); quiet("data " + k, lib.eccd[k], fr, d)
            if k == "i71": quiet("convert", lib.l.mbe_convertImbe7100to7200, d)
            a, p = copy(lib, st[0]), copy(lib, st[1])
            o = ctypes.create_string_buffer(640)
            quiet("decode " + k, lib.decode[k if k != "i71" else "i72"], d, a, p)
            a, p = copy(lib, st[0]), copy(lib, st[1])
            quiet("enhance", lib.l.mbe_spectralAmpEnhance, a); quiet("smooth", lib.l.mbe_applyAdaptiveSmoothing, a, p)
            quiet("speech", lib.l.mbe_synthesizeSpeechf, o, a, p, 3); quiet("speech16", lib.l.mbe_synthesizeSpeech, o, a, p, 3)
            d49 = ctypes.create_string_buffer(bytes(frames.bits(rng, "a50", "tone")), 49)
            quiet("tone", lib.l.mbe_synthesizeTonef, o, d49, a); quiet("tone*", lib.l.mbe_synthesizeTonefdstar, o, d49, a, rng.randrange(200))
            for fn in ("mbe_synthesizeComfortNoisef", "mbe_synthesizeComfortNoise", "mbe_synthesizeSilencef", "mbe_synthesizeSilence", "mbe_printVersion"): quiet(fn, getattr(lib.l, fn), o)
            quiet("init", lib.l.mbe_initMbeParms, a, p, copy(lib, a)); quiet("seed", lib.l.mbe_setThreadRngSeed, rng.getrandbits(32))
            for fn in ("mbe_requiresMuting", "mbe_isMaxFrameRepeat", "mbe_requiresAdaptiveSmoothing"): quiet(fn, getattr(lib.l, fn), a)


def check(c):
    vlib.trace_check(c, "dumps", "TraceDumps", ["scalar", "release", "simd", "relscalar"], 16 if c.quick else 32)
    c.assumptions.append("builds without debug logs; cells hold bits")


if __name__ == "__main__": vlib.main(check, "C26")
