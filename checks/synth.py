"""C15, C16: synthesis of pairs of models."""
import ctypes, math, os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, frames, conceal
from conceal import copy, digof

ALTERED = ("Ml", "Vl", "PHIl", "PSIl", "localEnergy", "amplitudeThreshold", "previousUw", "noiseSeed", "noiseOverlap")


def syn(lib, t, cur, prev, part, override=None):
    """Synthesise copies of (cur, prev); record everything."""
    l = lib.l
    c0, p0 = copy(lib, cur), copy(lib, prev)
    c, p = copy(lib, cur), copy(lib, prev)
    if override is not None: l.mbe_setThreadRngSeed(override)
    out = (ctypes.c_float * 160)()
    l.mbe_synthesizeSpeechf(out, c, p, 3)
    cL, pL = lib.get(c, "L"), lib.get(p, "L")
    rest = [n for n in lib.layout if n not in ALTERED]
    prest = [n for n in lib.layout if n not in ("Ml", "Vl", "PSIl")]
    same = digof(lib, c, rest) == digof(lib, c0, rest) and digof(lib, p, prest) == digof(lib, p0, prest) and \
        lib.get(p, "Ml")[1:pL + 1] == lib.get(p0, "Ml")[1:pL + 1] and lib.get(p, "Vl")[1:pL + 1] == lib.get(p0, "Vl")[1:pL + 1]
    first = 3147
    if override is not None: first = (override or 0x6d25357b) % 53125
    t.ev(op="syn", part=part, cw=lib.get(c, "w0"), pw=lib.get(p, "w0"), cm=lib.get(c, "Ml")[1:cL + 1], cv=lib.get(c, "Vl")[1:cL + 1],
         pm=lib.get(p, "Ml")[1:pL + 1], pv=lib.get(p, "Vl")[1:pL + 1], v0=lib.get(c, "Vl")[0],
         psi0=lib.get(p0, "PSIl")[1:], phi0=lib.get(p0, "PHIl")[1:], psi1=lib.get(c, "PSIl")[1:], phi1=lib.get(c, "PHIl")[1:],
         uw0=lib.get(p0, "previousUw"), uw1=lib.get(c, "previousUw"), seed0=lib.get(c0, "noiseSeed"), seed1=lib.get(c, "noiseSeed"),
         ov0=lib.get(c0, "noiseOverlap"), ov1=lib.get(c, "noiseOverlap"), first=first, other=1 if same else 0,
         pcm=list(struct.unpack("<160i", bytes(out))))
    return c, p


def model(lib, rng, p, part, w0=None, L=None, loud=1.0):
    L = L if L is not None else rng.choice([1, 2, 6, 7, 8, 9, 15, 31, 32, 55, 56, rng.randrange(1, 57), rng.randrange(1, 57)])
    lib.seti(p, "L", L)
    lib.setf(p, "w0", w0 if w0 is not None else rng.choice([0.0, 0.6168503, rng.uniform(.05, .32), rng.uniform(.05, .32), 2.9 / max(9, L), 2.9 / max(9, L)]))
    style = rng.randrange(4)
    k = rng.randrange(1, 57)
    for l in range(57):
        v = {"v": 1, "u": 0, "m": rng.getrandbits(1), "x": rng.getrandbits(1), "t": 1}[part]
        m = loud * {0: rng.uniform(0, 300), 1: 2.0 ** rng.uniform(-3, 9), 2: 200.0 if l == k else 0.0, 3: 30.0}[style]
        if part == "t" and style: m = 0.0                  # nothing but the tail of what came before
        if part == "x" and v == 0: m = 0.0                 # voiced bands among silent unvoiced ones
        lib.setf(p, "Ml", m, l); lib.seti(p, "Vl", v, l)
        lib.setf(p, "PSIl", rng.choice([rng.uniform(0, 6.283), rng.uniform(-40, 3000), 0.0]), l)
        lib.setf(p, "PHIl", lib.getf(p, "PSIl", l) + rng.choice([0, rng.uniform(-3.14, 3.14)]), l)
        lib.setf(p, "log2Ml", 1.0, l)
    lib.setf(p, "localEnergy", 75000.0); lib.seti(p, "amplitudeThreshold", 20480); lib.setf(p, "mutingThreshold", rng.choice([.0875, .096]))
    if part in "umt":
        for i in range(256): lib.setf(p, "previousUw", rng.uniform(-500, 500) * loud, i)
    s = rng.choice([-1, 0, 53124, rng.randrange(53125), rng.randrange(53125)])
    lib.setf(p, "noiseSeed", s)
    for i in range(96): lib.setf(p, "noiseOverlap", rng.randrange(53125) if s >= 0 or rng.random() < .5 else 0, i)


def drive(lib, t, rng, tier, shard, nshards):
    prop = os.environ.get("PROP", "C15")
    n = 900 if tier == "thorough" else 260
    lib.l.mbe_setThreadRngSeed(1)
    lib.l.mbe_synthesizeSpeechf((ctypes.c_float * 160)(), *lib.stream()[:2], 3)   # consumes the start-up seed override
    for i in range(n):
        part = rng.choice("vvxxm" if prop == "C15" else "uuumt")
        c, p = lib.parms(), lib.parms()
        model(lib, rng, c, part)
        w, L = lib.getf(c, "w0"), lib.get(c, "L")
        r = rng.random()
        if r < .6: model(lib, rng, p, part, w * rng.choice([1, .95, 1.05, .905, 1.105, .91, 1.09, .999]), rng.choice([L, L, max(1, L - 1), min(56, L + 1), rng.randrange(1, 57)]))
        else: model(lib, rng, p, part)
        if rng.random() < .1: model(lib, rng, c, part, w, L, 40.0)        # loud: soft clipping, amplitude limiting
        if rng.random() < .2: lib.seti(c, "Vl", rng.getrandbits(1), 0)
        syn(lib, t, c, p, part, rng.choice([None, None, 0, 1, 53125, 0xffffffff, rng.getrandbits(32)]) if lib.getf(c, "noiseSeed") < 0 else None)
    # decoded streams
    k = ("i72", "a50", "a00", "i71")[shard % 4]
    st = lib.stream()
    mute = 0
    for i in range(200 if tier == "thorough" else 90):
        r = rng.random()
        b = frames.bits(rng, k, "reserved" if k[0] == "i" and r < .15 else "tone" if k == "a50" and r < .05 else "erasure" if k == "a50" and r < .12 else "silence" if k == "a50" and r < .2 else "voice")
        errs2 = rng.choice([0, 0, 0, 1, 2, 7])
        s0 = [copy(lib, x) for x in st]
        ov = rng.randrange(1, 2 ** 32)
        lib.l.mbe_setThreadRngSeed(ov)
        o = lib.process(k, "D", "f", b, st, 0, errs2)
        marks = o["str"].lstrip("=")
        if marks in ("", "R") and not (k == "a00" and lib.getf(s0[0], "mutingThreshold") != lib.getf(st[0], "mutingThreshold")):
            fresh = k[0] == "a" and abs(lib.getf(s0[1], "mutingThreshold") - .096) > 1e-6
            if not fresh and not (marks == "R" and lib.get(st[1], "repeatCount") == 0):
                t.ev(op="frame", codec=k, str=o["str"], rep=1 if "R" in marks else 0, pw=lib.get(s0[2], "w0"), cw=lib.get(st[0], "w0"),
                     psi0=lib.get(s0[2], "PSIl")[1:], psi1=lib.get(st[0], "PSIl")[1:], cseed0=lib.get(s0[0], "noiseSeed"), cov0=lib.get(s0[0], "noiseOverlap"),
                     pseed0=lib.get(s0[1], "noiseSeed"), pov0=lib.get(s0[1], "noiseOverlap"), first=ov % 53125,
                     seed1=lib.get(st[0], "noiseSeed"), ov1=lib.get(st[0], "noiseOverlap"))
            if i % 3 == 0 and not fresh:
                x = copy(lib, st[1])
                lib.l.mbe_spectralAmpEnhance(x)
                syn(lib, t, x, s0[2], "m", ov)


def check(c):
    p = c.pid
    os.environ["PROP"] = p
    vlib.trace_check(c, "synth", "TraceSynth", ["scalar", "release", "simd", "relscalar"], 16 if c.quick else 48, env={"PROP": p})
    import again
    again.stage(c)
    c.assumptions.append("models of 1..56 bands; samples of a pair are not compared when the pitch ratio or a phase wrap is within rounding of its boundary, spectra not when a band edge is")


if __name__ == "__main__": vlib.main(check, sys.argv[1])
