"""C28: pairs of receivers with different pasts hear the same undamaged frames; TLC decides that the pasts fade as the
specification derives."""
import ctypes, math, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, frames
from conceal import CLS, copy, ambe_fresh

CONT = ("PHIl", "PSIl", "noiseSeed", "noiseOverlap", "previousUw", "swn", "un")


def past(lib, rng, codec, style, n):
    """A stream with n frames behind it."""
    st = lib.stream() if codec[0] == "i" or rng.random() < .5 else ambe_fresh(lib)
    fixed = frames.bits(rng, codec, "voice")
    loud = [1] * len(fixed)
    for i in range(n):
        cls, b = rng.choice(CLS[codec]), None
        if style == "clean": cls, c0, total = "voice", 0, 0
        elif style == "noise": c0 = rng.randrange(4); total = c0 + rng.choice([0, 3, 8, 12])
        elif style == "mute": cls, c0, total = "voice", 3, 15 if codec[0] == "i" else 6
        elif style == "steady": b, c0, total = fixed, 0, rng.choice([0, 0, 0, 9])
        elif style == "loud":
            b = list(loud); c0 = total = 0
            for p in frames.PITCH[codec]: b[p] = fixed[p]
        else: c0, total = rng.choice([0, 3]), rng.choice([3, 20, 40])
        b = b or frames.bits(rng, codec, cls)
        lib.l.mbe_setThreadRngSeed(rng.randrange(1, 99))
        lib.process(codec, "D", "f", b, st, min(c0, total), total)
    return st


def rec(lib, st, o=None):
    c, p, e = st
    L = max(1, min(56, lib.get(p, "L"))); M = max(1, min(56, lib.get(e, "L")))
    return {"L": L, "x": lib.get(p, "log2Ml")[1:L + 1], "g": lib.get(p, "gamma"), "r": lib.get(p, "errorRate"), "m": lib.get(p, "Ml")[1:L + 1],
            "e": lib.get(e, "localEnergy"), "t": lib.get(e, "amplitudeThreshold"), "em": lib.get(e, "Ml")[1:M + 1], "ev": lib.get(e, "Vl")[1:M + 1],
            "rc": lib.get(p, "repeatCount"), "k": [lib.get(p, "L"), lib.get(p, "K"), lib.get(p, "w0")] + lib.get(p, "Vl")[1:L + 1],
            "n": [o["errs"], o["errs2"]] + o["d"] if o else []}


def both(lib, t, rng, codec, a, b, inp, kind, total, op, **more):
    # an AMBE stream on records of another start is normalised by its first frame: what it held before counts for nothing
    pre = [rec(lib, ambe_fresh(lib) if codec[0] == "a" and abs(lib.getf(s[1], "mutingThreshold") - .096) > 1e-6 else s) for s in (a, b)]
    seed, outs = rng.randrange(1, 1000), []
    for s in (a, b):
        lib.l.mbe_setThreadRngSeed(seed)
        outs.append(lib.process(codec, kind, "f", inp, s, 0, total))
    if t: t.ev(op=op, fam="imbe" if codec[0] == "i" else codec, a0=pre[0], b0=pre[1], a1=rec(lib, a, outs[0]), b1=rec(lib, b, outs[1]),
               pcm=[o["pcm"][::3] for o in outs], s=[o["str"] for o in outs], want="=" * total, **more)


def pair(lib, t, rng, codec, styles, tier):
    a, b = (past(lib, rng, codec, s, rng.choice([0, 1, 2, 9, 40]) if s != "mute" else rng.choice([3, 5, 60])) for s in styles)
    r = max(lib.getf(s[1], "errorRate") for s in (a, b)) + .01
    n = max(40, int(math.log(r / .0045) / -math.log(.95)) + 2)
    fixed = frames.bits(rng, codec, "voice")
    same = rng.random() < .3
    # a talker who stays in a narrow pitch range (often at an end of it), or one who wanders through all of it
    top = {"i72": 207, "i71": 207, "a50": 119, "a00": 125}[codec]
    lo = rng.choice([None, None, 0, top - 3, rng.randrange(top - 5)])
    def voice(k):
        b = frames.bits(rng, k, "voice")
        if lo is not None: frames.setb(b, frames.PITCH[k], lo + rng.randrange(4))
        return b
    full = n if tier == "thorough" else 12
    for i in range(n):
        dirty = i < 6 and rng.random() < .4
        bits = fixed if same else frames.bits(rng, codec, "silence") if codec == "a50" and rng.random() < .15 else voice(codec)
        total = rng.choice([1, 2]) if dirty else 0
        kind = "F" if codec == "i71" else rng.choice("FD")      # parameter entry points take the 7200 layout
        inp = bits
        if kind == "F": inp = frames.damage(rng, codec, frames.encode(lib, codec, bits), 0, total)
        both(lib, t if i < full or i % 16 == 0 else None, rng, codec, a, b, inp, kind, total, "common")
    last = "i72" if codec == "i71" else codec
    for i in range(30): both(lib, None, rng, codec, a, b, voice(last), "D", 0, "common")
    for p, q in zip(a, b):
        for f in CONT:
            o, c = lib.layout[f]
            ctypes.memmove(ctypes.addressof(q) + 4 * o, ctypes.addressof(p) + 4 * o, 4 * c)
    bits = voice(last)
    both(lib, t, rng, codec, a, b, bits, "D", 0, "settled")


STYLES = ["clean", "noise", "mute", "steady", "loud", "data"]


def drive(lib, t, rng, tier, shard, nshards):
    codec = ["i72", "a50", "i71", "a00"][shard % 4]
    for i in range(40 if tier == "thorough" else 14):
        pair(lib, t, rng, codec, (STYLES[(i + shard) % 6], rng.choice(STYLES)), tier)


def check(c):
    c.model("MCResync", cfg="MCResync" if c.quick else "MCResyncBig", workers=8)
    vlib.trace_check(c, "resync", "TraceResync", ["scalar", "release", "simd", "relscalar"], 16 if c.quick else 48)
    c.assumptions.append("pasts are seeded walks of up to 60 frames per receiver; the common stretch is long enough for the error rate to fall below .0045")


if __name__ == "__main__": vlib.main(check, "C28")
