"""C14: spectral amplitude enhancement."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, frames, conceal
from conceal import copy


def ev(lib, t, p):
    L = lib.get(p, "L")
    a = copy(lib, p)
    m = [lib.getf(p, "Ml", l) for l in range(1, L + 1)]
    e = sum(x * x for x in m)
    if e and not 1e-30 < e < 1e37: return
    lib.l.mbe_spectralAmpEnhance(a)
    b = copy(lib, a)
    for l in range(1, L + 1): lib.setf(b, "Ml", lib.getf(p, "Ml", l), l)
    t.ev(op="enh", L=L, w0=lib.get(p, "w0"), m=lib.get(p, "Ml")[1:L + 1], m1=lib.get(a, "Ml")[1:L + 1], other=1 if b.raw == p.raw else 0)


def drive(lib, t, rng, tier, shard, nshards):
    n = 4000 if tier == "thorough" else 1200
    for i in range(n):
        p = lib.parms(rng.choice([0, 0, 0x3f, 0x41]))
        L = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 55, 56]) if rng.random() < .4 else rng.randrange(57)
        lib.seti(p, "L", L)
        lib.setf(p, "w0", rng.choice([0.0, math.pi / 32 * 2 * math.pi, rng.uniform(.05, .32), rng.uniform(.05, .32), rng.uniform(.05, .32), 2.9 / max(9, L)]))
        style = rng.randrange(9)
        base = 2.0 ** rng.uniform(-12, 30)
        k = rng.randrange(1, 57)
        for l in range(57):
            m = {0: base, 1: base * 2.0 ** rng.uniform(-6, 6), 2: base * 2.0 ** (-l / 6.0), 3: base if l == k else 0.0,
                 4: base * rng.choice([0, 1, 1]), 5: base if l in (k, k + 1) else base * 1e-6, 6: 0.0,
                 7: base * 2.0 ** (4 * math.cos(l * .7) + rng.uniform(-1, 1)), 8: base * (1 + (l == k) * 30)}[style]
            lib.setf(p, "Ml", m, l)
            lib.seti(p, "Vl", rng.getrandbits(1), l)
            lib.setf(p, "log2Ml", rng.uniform(-1, 9), l)
        ev(lib, t, p)
    for k in ("i72", "a50", "a00"):
        st = lib.stream()
        for i in range(60 if tier == "thorough" else 40):
            b = frames.bits(rng, k, rng.choice(["voice"] * 5 + (["erasure", "silence"] if k == "a50" else [])))
            lib.process(k, "D", "f", b, st, 0, rng.choice([0, 0, 1, 3]))
            ev(lib, t, copy(lib, st[1]))


def check(c):
    vlib.trace_check(c, "enhance", "TraceEnhance", ["scalar", "release", "simd", "relscalar"], 16 if c.quick else 48)
    import again
    again.stage(c)
    c.assumptions.append("the energy of the model is zero or between 1e-30 and 1e37, so that it fits single precision")


if __name__ == "__main__": vlib.main(check, "C14")
