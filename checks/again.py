"""The same calls again and again: every entry point is a function of what it is given, whatever was called before and
however often (Again.tla). Builds the calls of one property's entry points; the C loop makes them, TLC decides."""
import ctypes, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, frames, conceal, params, smooth, synth

NARG, NREG = 10, 12


class Call(ctypes.Structure):
    _fields_ = [("fn", ctypes.c_void_p), ("a", ctypes.c_long * NARG), ("ret", ctypes.c_int), ("nreg", ctypes.c_int),
                ("p", ctypes.c_void_p * NREG), ("len", ctypes.c_long * NREG)]


def call(name, f, args, ret=False):
    """args: buffers (restored before every call and compared after it) and integers."""
    c = Call()
    c.fn = ctypes.cast(f, ctypes.c_void_p).value
    k = 0
    for i, a in enumerate(args):
        if isinstance(a, int): c.a[i] = a
        else:
            c.a[i] = ctypes.addressof(a); c.p[k] = c.a[i]; c.len[k] = ctypes.sizeof(a); k += 1
    c.ret, c.nreg = int(ret), k
    return name, c, args          # args keeps the buffers alive


def num(v):
    b = vlib.Lib.aligned(4)
    b.raw = int(v).to_bytes(4, "little", signed=True)
    return b


def bitbuf(bits):
    b = vlib.Lib.aligned(len(bits))
    b.raw = bytes(bits)
    return b


def frame(lib, rng, k, cls, kind, fmt, c0, total, st):
    b = frames.bits(rng, k, cls)
    rows, cols, nd = lib.CODECS[k]
    out = lib.aligned(640 if fmt == "f" else 320)
    err = lib.aligned(512, 0x7e)
    recs = [conceal.copy(lib, p) for p in st]
    if kind == "F":
        total = max(c0, min(total, frames.capacity(k) - (3 - c0)))
        fr = bitbuf(frames.damage(rng, k, frames.encode(lib, k, b), c0, total, rng.choice([None, 0, 1])))
        a = [out, num(7), num(9), err, fr, bitbuf([2] * nd)] + recs + [3]
    else: a = [out, num(c0), num(total), err, bitbuf(b)] + recs + [3]
    return call("%s.%s.%s.%s" % (k, kind, fmt, cls), lib.proc[(k, kind, fmt)], a)


def history(lib, rng, k, n):
    """The records after n frames, good and bad."""
    st = conceal.start(lib, rng, k)
    for _ in range(n):
        if k[0] == "i" and rng.random() < .3: lib.process(k, "F", "f", frames.damage(rng, k, frames.encode(lib, k, frames.bits(rng, k, "voice")), 3, 12), st)
        else: lib.process(k, "D", "f", frames.bits(rng, k, rng.choice(conceal.CLS[k])), st, 0, rng.choice([0, 0, 1, 7]))
    return st


def streams(lib, rng, ks, n, fmts="f"):
    r = []
    while len(r) < n:
        k = rng.choice(ks)
        st = history(lib, rng, k, rng.choice([0, 1, 2, 6, 9]))
        c0 = rng.randrange(4)
        r.append(frame(lib, rng, k, rng.choice(conceal.CLS[k]), "F" if k == "i71" else rng.choice("FD"), rng.choice(fmts), c0, c0 + rng.choice([0, 0, 1, 3, 6, 9]), st))
    return r


def decodes(lib, rng, k, n):
    r = []
    for i in range(n):
        cur, prev = lib.parms(), lib.parms()
        params.garbage(lib, rng, cur); params.prevmodel(lib, rng, prev, rng.randrange(5))
        r.append(call("decode." + k, lib.decode[k], [bitbuf(params.payload(rng, k, i)), cur, prev], True))
        if i % 3 == 0:     # and the same again but for one bit, one value
            c2, p2 = conceal.copy(lib, cur), conceal.copy(lib, prev)
            b = bytearray(r[-1][2][0].raw)
            if rng.random() < .5: b[rng.randrange(len(b))] ^= 1
            else: lib.setf(p2, "log2Ml", rng.uniform(-4, 14), rng.randrange(1, lib.get(p2, "L") + 1))
            r.append(call("decode." + k, lib.decode[k], [bitbuf(b), c2, p2], True))
    return r


def pairs(lib, rng, parts, n):
    r = []
    for _ in range(n):
        part = rng.choice(parts)
        c, p = lib.parms(), lib.parms()
        synth.model(lib, rng, c, part)
        if rng.random() < .6: synth.model(lib, rng, p, part, lib.getf(c, "w0") * rng.choice([1, 1.05, .92, 1.3]), lib.get(c, "L"))
        else: synth.model(lib, rng, p, part)
        if rng.random() < .5: r.append(call("speechf." + part, lib.l.mbe_synthesizeSpeechf, [lib.aligned(640), c, p, rng.choice([3, 3, 0, 64])]))
        else: r.append(call("speech." + part, lib.l.mbe_synthesizeSpeech, [lib.aligned(320), c, p, 3]))
        if rng.random() < .3:        # one bit of the pitch, one band, apart
            c2, p2 = conceal.copy(lib, c), conceal.copy(lib, p)
            lib.setf(c2, "w0", lib.getf(c, "w0") * 1.001); lib.seti(c2, "Vl", 1 - lib.get(c, "Vl")[3], 3)
            r.append(call("speechf." + part, lib.l.mbe_synthesizeSpeechf, [lib.aligned(640), c2, p2, 3]))
    return r


def tones(lib, rng, n):
    r = []
    for _ in range(n):
        c = lib.parms(); params.garbage(lib, rng, c)
        lib.seti(c, "swn", rng.getrandbits(31)); lib.seti(c, "un", rng.getrandbits(31))
        out = lib.aligned(640)
        b = frames.bits(rng, "a50", "tone")
        if rng.random() < .6: r.append(call("tone", lib.l.mbe_synthesizeTonef, [out, bitbuf(b), c]))
        else: r.append(call("tone.dstar", lib.l.mbe_synthesizeTonefdstar, [out, bitbuf(b), c, rng.randrange(4, 124)]))
    return r


def enhance(lib, rng, n):
    r = []
    for i in range(n):
        p, q = lib.parms(), lib.parms()
        smooth.randmodel(lib, rng, p, q)
        for l in range(57): lib.setf(p, "Ml", 2.0 ** rng.uniform(-4, 12), l)
        r.append(call("enhance", lib.l.mbe_spectralAmpEnhance, [p]))
    return r


def smoothing(lib, rng, n):
    r = []
    for i in range(n):
        p, q = lib.parms(), lib.parms()
        smooth.randmodel(lib, rng, p, q)
        r.append(call("smooth", lib.l.mbe_applyAdaptiveSmoothing, [p, q]))
    return r


def channel(lib, rng, n):
    r = []
    for i in range(n):
        k = rng.choice(["i72", "i71", "a50", "a00"])
        rows, cols, nd = lib.CODECS[k]
        fr = frames.encode(lib, k, frames.bits(rng, k, "voice"))
        if i % 2: fr = [x ^ (rng.random() < .1) for x in fr]
        r.append(call("c0." + k, lib.ecc0[k], [bitbuf(fr)], True))
        r.append(call("descramble." + k, lib.demod[k], [bitbuf(fr)]))
        r.append(call("data." + k, lib.eccd[k], [bitbuf(fr), bitbuf([2] * nd)], True))
        r.append(call("convert", lib.l.mbe_convertImbe7100to7200, [bitbuf([rng.getrandbits(1) for _ in range(88)])]))
    return r


def records(lib, rng, n):
    r = []
    for i in range(n):
        a, b, c = lib.parms(), lib.parms(), lib.parms()
        for p in (a, b, c): params.garbage(lib, rng, p)
        r.append(rng.choice([lambda: call("init", lib.l.mbe_initMbeParms, [a, b, c]), lambda: call("move", lib.l.mbe_moveMbeParms, [a, b]),
                             lambda: call("uselast", lib.l.mbe_useLastMbeParms, [a, b])])())
    return r + streams(lib, rng, ["a50", "a00"], n // 2)


def sounds(lib, rng, n):
    r = []
    for i in range(n):
        x = lib.aligned(640)
        import struct
        x.raw = struct.pack("<160f", *[rng.choice([rng.uniform(-6000, 6000), rng.uniform(-40, 40)]) for _ in range(160)])
        r.append(call("convert", lib.l.mbe_floattoshort, [x, lib.aligned(320)]))
    return r + streams(lib, rng, ["i72", "i71", "a50", "a00"], n // 2, "fs")


def noises(lib, rng, n):
    r = [call("comfortf", lib.l.mbe_synthesizeComfortNoisef, [lib.aligned(640)]), call("comfort", lib.l.mbe_synthesizeComfortNoise, [lib.aligned(320)])]
    for i in range(n):
        c, p = lib.parms(), lib.parms()
        for q in (c, p): synth.model(lib, rng, q, "u")
        lib.seti(c, "repeatCount", rng.choice([0, 0, 4]))
        if i % 2: lib.setf(c, "noiseSeed", -1.0)
        r.append(call("speechf", lib.l.mbe_synthesizeSpeechf, [lib.aligned(640), c, p, 3]))
    return r


def helpers(lib, rng, n):
    r = []
    for i in range(n):
        p, q = lib.parms(), lib.parms()
        smooth.randmodel(lib, rng, p, q)
        lib.seti(p, "repeatCount", rng.randrange(8)); lib.setf(p, "mutingThreshold", rng.choice([.0875, .096]))
        for f in ("mbe_requiresMuting", "mbe_isMaxFrameRepeat", "mbe_requiresAdaptiveSmoothing"): r.append(call(f, getattr(lib.l, f), [p], True))
        r.append(call("silencef", lib.l.mbe_synthesizeSilencef, [lib.aligned(640, 0x55)]))
        r.append(call("silence", lib.l.mbe_synthesizeSilence, [lib.aligned(320, 0x55)]))
        r.append(call("printVersion", lib.l.mbe_printVersion, [lib.aligned(64, 0x7e)]))
    return r


# property -> (calls, how many of them, how often in all: quick, thorough; generators set before each call)
WHAT = {
    "C03": (lambda l, r: channel(l, r, 10), 400000, 10000000, 0),
    "C06": (lambda l, r: decodes(l, r, "i72", 12), 140000, 3000000, 0),
    "C07": (lambda l, r: decodes(l, r, "a50", 12), 140000, 3000000, 0),
    "C08": (lambda l, r: decodes(l, r, "a00", 12), 140000, 3000000, 0),
    "C09": (lambda l, r: streams(l, r, ["i72", "i71"], 12), 70000, 700000, 1),
    "C10": (lambda l, r: streams(l, r, ["a50"], 12), 70000, 700000, 1),
    "C11": (lambda l, r: streams(l, r, ["a00"], 12), 70000, 700000, 1),
    "C12": (lambda l, r: streams(l, r, ["i72", "i71", "a50", "a00"], 16), 70000, 700000, 1),
    "C13": (lambda l, r: smoothing(l, r, 16), 300000, 10000000, 0),
    "C14": (lambda l, r: enhance(l, r, 16), 200000, 5000000, 0),
    "C15": (lambda l, r: pairs(l, r, "vvx", 10), 70000, 700000, 0),
    "C16": (lambda l, r: pairs(l, r, "uumt", 10), 70000, 700000, 0),
    "C17": (lambda l, r: noises(l, r, 6), 140000, 3000000, 1),
    "C18": (lambda l, r: tones(l, r, 12), 140000, 3000000, 0),
    "C19": (lambda l, r: sounds(l, r, 8), 70000, 700000, 1),
    "C21": (lambda l, r: streams(l, r, ["i72", "i71", "a50", "a00"], 12, "fs") + tones(l, r, 2) + pairs(l, r, "m", 2), 70000, 700000, 1),
    "C22": (lambda l, r: records(l, r, 12), 70000, 700000, 1),
    "C25": (lambda l, r: helpers(l, r, 4), 500000, 20000000, 0),
}


def drive(lib, t, rng, tier, shard, nshards):
    make, quick, thorough, seeded = WHAT[os.environ["PROP"]]
    calls = make(lib, rng)
    n = len(calls)
    arr = (Call * n)(*[c for _, c, _ in calls])
    made, off, at = (ctypes.c_long * n)(), (ctypes.c_long * n)(), (ctypes.c_long * n)()
    seedfn = ctypes.cast(lib.l.mbe_setThreadRngSeed, ctypes.c_void_p) if seeded else None
    if not seeded:                           # consumes the start-up seed override
        lib.l.mbe_setThreadRngSeed(1)
        lib.l.mbe_synthesizeSpeechf((ctypes.c_float * 160)(), *lib.stream()[:2], 3)
    times = thorough if tier == "thorough" else quick
    lib.vp.vp_again(n, arr, ctypes.c_long(times), ctypes.c_uint32(rng.getrandbits(32)), seedfn, rng.choice([0, 3, 40]), made, off, at)
    for i, (name, _, _) in enumerate(calls):
        t.ev(op="again", call=i, what=name, made=made[i], off=off[i], at=at[i])


def stage(c):
    os.environ["PROP"] = c.pid
    vlib.trace_check(c, "again", "TraceAgain", ["scalar", "release"], 2 if c.quick else 8)
    c.cov["calls made again and again"] = sum(WHAT[c.pid][1 if c.quick else 2] for _ in range(2 if c.quick else 8))
