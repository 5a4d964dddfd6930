"""C18: tone frames. Every index is rendered directly at several levels and phases; streams play runs of tones, mixed
with voice, in both AMBE codecs and through both the frame and the parameter entry points."""
import ctypes, os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, frames
from conceal import copy, digof, ambe_fresh

REST = None


def words(b): return list(struct.unpack("<160i", bytes(b)))
def ph(lib, p): return [lib.get(p, "swn"), lib.get(p, "un")]


def setlevel(d, lv):
    frames.setb(d, [6, 7, 8, 9, 10, 11, 44], lv)


def phases(rng):
    f = lambda: rng.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, rng.randrange(-2 ** 31, 2 ** 31), rng.randrange(-2 ** 31, 2 ** 31)])
    return f(), f()


def direct(lib, t, rng, d, star, id_, built):
    p = lib.stream()[0]
    a, b = phases(rng)
    lib.seti(p, "swn", a); lib.seti(p, "un", b)
    q = copy(lib, p)
    rest = [n for n in lib.layout if n not in ("swn", "un")]
    out = (ctypes.c_float * 160)(*[9.5] * 160)
    buf = ctypes.create_string_buffer(bytes(d), 49)
    if star: lib.l.mbe_synthesizeTonefdstar(out, buf, p, id_)
    else: lib.l.mbe_synthesizeTonef(out, buf, p)
    t.ev(op="tone", star=1 if star else 0, id=id_, d=list(d), built=built, p0=ph(lib, q), p1=ph(lib, p), pcm=words(out),
         rest=1 if digof(lib, p, rest) == digof(lib, q, rest) and buf.raw == bytes(d) else 0)


def frame(lib, t, rng, codec, kind, b, st, first, built, total):
    if kind == "F":
        c0 = rng.choice([0, 0, 1]); tot = c0 + total
        inp, e, e2 = frames.damage(rng, codec, frames.encode(lib, codec, b), c0, tot), 0, 0
    else: inp, e, e2 = b, rng.choice([0, 0, 1]) if total else 0, total
    restarted = abs(lib.getf(st[1], "mutingThreshold") - .096) > 1e-6
    p0 = [0, 0] if restarted else ph(lib, st[0])
    o = lib.process(codec, kind, "f", inp, st, e, e2)
    t.ev(op="frame", codec=codec, kind=kind, d=o["d"], errs=o["errs"], errs2=o["errs2"], str=o["str"], first=1 if first else 0, built=built,
         p0=p0, p1=ph(lib, st[0]), pcm=o["pcm"])


def drive(lib, t, rng, tier, shard, nshards):
    built = 0 if lib.dir.startswith("notones") else 1
    deep = tier == "thorough"
    ids = [i for i in range(256) if deep or i % 3 == shard % 3]
    for i in ids:
        for lv in ([0, 1, 64, 127] if deep else rng.sample([0, 1, 2, 63, 64, 126, 127], 1)) + [rng.randrange(128)]:
            d = [rng.getrandbits(1) for _ in range(49)]
            frames.setb(d, list(range(12, 20)), i); setlevel(d, lv)
            direct(lib, t, rng, d, False, -1, built)
        direct(lib, t, rng, [rng.getrandbits(1) for _ in range(49)], True, i, built)
    for i in (-1, -200, 4, 5, 122, 123, 255, 256, 1000, -2 ** 31, 2 ** 31 - 1): direct(lib, t, rng, [0] * 49, True, i, built)
    for k in range(60 if deep else 8):
        codec = ("a50", "a00")[k % 2]
        st = ambe_fresh(lib) if rng.random() < .7 else lib.stream()
        lib.seti(st[0], "swn", phases(rng)[0]); lib.seti(st[0], "un", phases(rng)[1])
        tone = None
        for j in range(14):
            if tone is None or rng.random() < .3:
                tone = rng.choice(list(range(5, 123)) + ([] if codec == "a00" else list(range(128, 164)) * 4))
            cls = "voice" if rng.random() < .15 else "badtone" if rng.random() < .05 else "tone"
            b = frames.bits(rng, codec, cls, tone if cls == "tone" else None)
            if cls == "tone" and codec == "a50":
                keep = b[44:49]
                setlevel(b, rng.randrange(128))
                if b[45:49] == [0] * 4 or b[20:24] == b[12:16]: pass
            frame(lib, t, rng, codec, rng.choice("FFD"), b, st, j == 0, built, rng.choice([0, 0, 0, 1, 2]))


def check(c):
    n = 21 if c.quick else 42
    vlib.trace_check(c, "tone", "TraceTone", ["scalar", "release", "simd", "relscalar", "notones", "scalar", "release"], n)
    import again
    again.stage(c)
    c.assumptions.append("every tone index is rendered; levels, phases and the bits that do not matter are sampled")


if __name__ == "__main__": vlib.main(check, "C18")
