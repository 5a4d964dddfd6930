"""C13: error tracking on the concealment histories (TraceConceal) and adaptive smoothing (TraceSmooth)."""
import ctypes, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, frames, conceal
from conceal import copy, dig, digof

RATES = [0.0, 0.0, 0.001, 0.0049, 0.0051, 0.008, 0.0124, 0.0126, 0.02, 0.0874, 0.0876, 0.095, 0.2]
TOTALS = [0, 0, 1, 3, 4, 5, 6, 7, 10, 15, 40]
REST = ("w0", "L", "K", "log2Ml", "PHIl", "PSIl", "gamma", "un", "repeat", "swn", "errorRate", "errorCountTotal", "errorCount4",
        "repeatCount", "mutingThreshold", "previousUw", "noiseSeed", "noiseOverlap")


def bands(lib, p, n):
    L = max(0, min(56, lib.get(p, "L")))
    return lib.get(p, n)[1:L + 1]


def ev(lib, t, who, c0, p0, c1, p1, op="smooth"):
    """c0/p0: records before, c1/p1 after smoothing."""
    t.ev(op=op, who=who, L=lib.get(c0, "L"), m=bands(lib, c0, "Ml"), v=bands(lib, c0, "Vl"), rate=lib.get(c0, "errorRate"),
         total=lib.get(c0, "errorCountTotal"), c4=lib.get(c0, "errorCount4"), pe=lib.get(p0, "localEnergy"), pt=lib.get(p0, "amplitudeThreshold"),
         e1=lib.get(c1, "localEnergy"), t1=lib.get(c1, "amplitudeThreshold"), m1=bands(lib, c1, "Ml"), v1=bands(lib, c1, "Vl"),
         other=1 if p1 is None or (digof(lib, c0, REST) == digof(lib, c1, REST) and p0.raw == p1.raw) else 0)


def randmodel(lib, rng, p, q):
    L = rng.choice([0, 1, 2, 7, 8, 9, 15, 55, 56, rng.randrange(57)])
    lib.seti(p, "L", L); lib.setf(p, "w0", 2.9 / max(L, 9))
    rate, total, c4 = rng.choice(RATES), rng.choice(TOTALS), rng.choice([0, 0, 1, 2])
    lib.setf(p, "errorRate", rate); lib.seti(p, "errorCountTotal", total); lib.seti(p, "errorCount4", c4)
    pe = rng.choice([0.0, -5.0, 9999.0, 10000.0, 10000.0, 10001.0, 75000.0, 2e4, 3e6, 1e12, 1e18])
    lib.setf(q, "localEnergy", pe)
    lib.seti(q, "amplitudeThreshold", rng.choice([20480, 20480, 0, -7, 1, 6000, 400, 26480, 3000000, 1073741000, 2147483647, 8000, 60000, 1000000, 70000000, 300000000, rng.randrange(1, 2 ** 31)]))
    e = max(10000.0, .95 * (pe if pe >= 10000 else 75000.0))
    vm = rng.choice([45.255 * e ** .375 / 2.718281828 ** (277.26 * min(rate, .02)), 1.414 * e ** .375])
    style = rng.randrange(6)
    for l in range(57):
        m = {0: vm * rng.choice([.5, .9, .999, 1.001, 1.1, 2]), 1: rng.uniform(0, 60000 / max(L, 1)), 2: 20480 / max(L, 1) * rng.choice([.98, 1.02]),
             3: 0.0, 4: rng.choice([0.0, 1e-20, 1.0, 3e4]), 5: 2.0 ** rng.uniform(-10, 34)}[style]
        lib.setf(p, "Ml", m, l); lib.seti(p, "Vl", rng.getrandbits(1), l)
        lib.setf(p, "log2Ml", rng.uniform(-1, 9), l); lib.setf(p, "PHIl", rng.uniform(-9, 9), l); lib.setf(p, "PSIl", rng.uniform(0, 6), l)


def drive(lib, t, rng, tier, shard, nshards):
    l = lib.l
    n = 1500 if tier == "thorough" else 450
    # direct calls; the hand-off of the pre-enhancement energy belongs to a record, by address
    slots = [lib.parms() for _ in range(3)]
    prev = lib.parms()
    for i in range(n):
        who = rng.randrange(3)
        c = slots[who]
        r = rng.random()
        if r < .35 and lib.get(c, "L") > 0:
            t.ev(op="enhance", who=who, m=bands(lib, c, "Ml"))
            l.mbe_spectralAmpEnhance(c)
            # amplitudes a negative threshold (a total above 20, direct calls only) has turned negative cannot be enhanced
            if any(x != x or abs(x) == float("inf") for x in [lib.getf(c, "Ml", j) for j in range(57)]): randmodel(lib, rng, c, prev)
        else:
            if r < .85: randmodel(lib, rng, c, prev)
            c0, p0 = copy(lib, c), copy(lib, prev)
            l.mbe_applyAdaptiveSmoothing(c, prev)
            ev(lib, t, who, c0, p0, c, prev)
    # inside processed frames: enhancement, then smoothing against the enhanced previous model
    k = ("i72", "a50", "a00", "i71")[shard % 4]
    for h in range(6 if tier == "thorough" else 5):
        st = conceal.start(lib, rng, k)
        for i in range(14):
            cls = "voice"
            c0 = rng.choice([0, 0, 1, 1, 2, 3]); total = c0 + rng.choice([0, 1, 2, 3])
            b = frames.bits(rng, k, cls)
            pre = copy(lib, st[2])
            if k[0] == "a" and abs(lib.getf(st[1], "mutingThreshold") - .096) > 1e-6: pre = conceal.ambe_fresh(lib)[2]
            kind = rng.choice("FD")
            l.mbe_setThreadRngSeed(5)
            inp = frames.damage(rng, k, frames.encode(lib, k, b), c0, total, rng.choice([0, 1])) if kind == "F" else b
            o = lib.process(k, kind, "f", inp, st, c0, total)
            if k[0] == "a" and ("M" in o["str"]): continue
            x = copy(lib, st[1])
            t.ev(op="enhance", who=9, m=bands(lib, x, "Ml"))
            l.mbe_spectralAmpEnhance(x)
            ev(lib, t, 9, x, pre, st[2], None)
            z = lib.parms(); l.mbe_applyAdaptiveSmoothing(x, z)          # consume the hand-off of the scratch copy


def drive_long(lib, t, rng, tier, shard, nshards):
    """Hours of audio: the recurrences at a steady error count, logged at intervals."""
    l = lib.l
    n = 500000 if tier == "thorough" else 400000
    errs = [1, 2, 7, 15, 1, 0, 19, 20][shard % 8]
    rate = [.0124, .0051, .05, .2, .3, .0, .09, .004][shard % 8]
    a, b = lib.parms(), lib.parms()
    for p in (a, b):
        lib.seti(p, "L", 30); lib.setf(p, "errorRate", rate); lib.seti(p, "errorCountTotal", errs)
        lib.seti(p, "amplitudeThreshold", 20480); lib.setf(p, "localEnergy", 75000.0)
        for j in range(57): lib.setf(p, "Ml", 300.0, j); lib.seti(p, "Vl", j & 1, j)
    f = l.mbe_applyAdaptiveSmoothing
    log = set(range(6)) | {n - 1, n - 2} | {rng.randrange(n) for _ in range(6)} | set(range(357000, 359000, 97)) | set(range(178900, 179100, 7))
    for i in range(n):
        if i in log:
            c0, p0 = copy(lib, a), copy(lib, b)
            f(a, b)
            ev(lib, t, 0, c0, p0, a, b)
        else: f(a, b)
        a, b = b, a
        if i % 1000 == 0:
            for j in range(57): lib.setf(a, "Ml", 300.0, j)


def check(c):
    conceal.dump_edges(c)
    vlib.trace_check(c, "conceal:drive_all", "TraceConceal", ["scalar", "release"], 16 if c.quick else 32, env={"PROP": "C13"})
    vlib.trace_check(c, "smooth", "TraceSmooth", ["scalar", "release"], 16 if c.quick else 48)
    vlib.trace_check(c, "smooth:drive_long", "TraceSmooth", ["scalar", "release"], 8)
    import again
    again.stage(c)
    c.assumptions.append("error counts are those the channel can produce (up to 15) or an application may pass (up to 40); amplitudes up to 2^34")


if __name__ == "__main__": vlib.main(check, "C13")
