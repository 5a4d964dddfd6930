"""C19: samples. Streams of every codec (ordinary, damaged, and payloads chosen to be as loud as the codec can get),
both formats; the conversion for every float (breakpoints from the specification, replayed in C) and for sampled
vectors that TLC decides itself."""
import ctypes, json, os, struct, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, frames
from conceal import CLS, copy

LOUD = {"i72": "0100101111111111111111110101111111111111100000010010100000101111111111111111001101111000",
        "a50": "1100001111111110000110100000011110111100011011011", "a00": "1110001111111111111110111011100101101011111111111"}
EDGE = [0.0, 1e-45, 1e-38, 1 / 7, 2 / 7, 0.999, 4446.9497, 4446.95, 4446.9507, 4681.0, 5000.0, 1e9, 3.4e38, 1e38, 306783.0]


def streams(lib, t, rng, tier, k):
    n = dict(frames.DIM)[k][2]
    deep = tier == "thorough"
    for kind in range(12 if deep else 4):
        st = lib.stream()
        loud = kind % 4
        base = [int(x) for x in LOUD[k if k != "i71" else "i72"]][:n]
        if len(base) != n: base = [1] * n
        for i in range(120 if deep else 22):
            seed = rng.getrandbits(32)
            if loud == 0:
                cls = rng.choice(CLS[k]); b = frames.bits(rng, k, cls)
                e2 = rng.choice([0, 0, 1, 2, 5, 9])
            else:
                b, e2 = list(base), 0
                if loud == 2:
                    for p in rng.sample(range(n), rng.randrange(1, 5)): b[p] ^= 1
                    if rng.random() < .2: base = b
                if loud == 3 and i % 7 == 6: b = frames.bits(rng, k, rng.choice(CLS[k])); e2 = rng.choice([0, 0, 0, 9])
            kd = rng.choice("DDF") if loud != 1 else "D"
            inp = b if kd == "D" else frames.damage(rng, k, frames.encode(lib, k, b), 0, 0)
            fmt = rng.choice("ffs")
            other = [copy(lib, p) for p in st] if i % 4 == 1 else None
            lib.l.mbe_setThreadRngSeed(seed)
            o = lib.process(k, kd, fmt, inp, st, 0, e2 if kd == "D" else 0)
            t.ev(op=fmt, what=k + kd + str(loud), pcm=o["pcm"])
            if other:                           # the same frame in the other format
                lib.l.mbe_setThreadRngSeed(seed)
                q = lib.process(k, kd, "s" if fmt == "f" else "f", inp, other, 0, e2 if kd == "D" else 0)
                x, y = (o["pcm"], q["pcm"]) if fmt == "f" else (q["pcm"], o["pcm"])
                t.ev(op="c", x=x, y=y)
            if i % 5 == 0:                      # the same model through the bare synthesis entry points
                c, p = copy(lib, st[1]), copy(lib, st[2])
                out = ((ctypes.c_float if fmt == "f" else ctypes.c_short) * 160)()
                (lib.l.mbe_synthesizeSpeechf if fmt == "f" else lib.l.mbe_synthesizeSpeech)(out, c, p, 3)
                t.ev(op=fmt, what=k + "syn", pcm=list(struct.unpack("<160i", bytes(out))) if fmt == "f" else list(out))


def drive(lib, t, rng, tier, shard, nshards):
    for k in (("i72", "a50") if shard % 2 == 0 else ("a00", "i71")): streams(lib, t, rng, tier, k)
    for j in range(40 if tier == "thorough" else 4):
        seed = rng.getrandbits(32)
        x, y = ctypes.create_string_buffer(640), (ctypes.c_short * 160)()
        lib.l.mbe_setThreadRngSeed(seed); lib.l.mbe_synthesizeComfortNoisef(x)
        lib.l.mbe_setThreadRngSeed(seed); lib.l.mbe_synthesizeComfortNoise(y)
        t.ev(op="c", x=list(struct.unpack("<160i", x)), y=list(y))
    for j in range(200 if tier == "thorough" else 12):
        x = []
        for i in range(160):
            r = rng.random()
            v = rng.choice(EDGE) if r < .15 else rng.uniform(0, 4600) if r < .6 else rng.randrange(31130) / 7 if r < .8 else 2.0 ** rng.uniform(-30, 30)
            w = vlib.f2b(v)
            if r > .6 and r < .8: w += rng.choice([-1, 0, 1])
            if rng.getrandbits(1): w = w | -2147483648
            x.append(w)
        b = ctypes.create_string_buffer(struct.pack("<160i", *x), 640)
        o = (ctypes.c_short * 160)()
        lib.l.mbe_floattoshort(b, o)
        t.ev(op="c", x=x, y=list(o))


def replay(lib, table, frm, to, stride):
    with open(table) as f: t = json.load(f)
    bp = (ctypes.c_double * len(t))(*[m * 2.0 ** e for m, e in t])
    bad, n = (ctypes.c_int32 * 8)(), ctypes.c_long(0)
    lib.vp.vp_pcm.restype = ctypes.c_long
    nb = lib.vp.vp_pcm(bp, len(t), ctypes.c_uint32(frm), ctypes.c_uint32(to), ctypes.c_uint32(stride), bad, ctypes.byref(n))
    return dict(bad=nb, cases=n.value, first="%s%r at position %d converted to %d, expected magnitude %d" % (
        "-" if bad[1] else "", vlib.b2f(bad[0]), bad[4], bad[2], bad[3]))


def check(c):
    table = os.path.join(c.dir, "pcm.json")
    c.model("DumpPcm", env={"OUT": table}, workers=4)
    cfgs = ["scalar", "simd", "release", "relscalar"]
    dirs = vlib.build_all(cfgs)
    # magnitudes below 1/8 and above 8192 in strides (they convert to 0 and to the limit), all between
    lo, hi = 0x3e000000, 0x46000000
    cut = [lo + (hi - lo) * i // 2 for i in range(3)]
    jobs = []
    for cfg in cfgs:
        st = (1 if cfg in ("scalar", "simd") else 5) if c.quick else 1
        jobs += [(cfg, a, b - 1, st) for a, b in zip(cut, cut[1:])] + [(cfg, 0, lo, 97 if c.quick else 1), (cfg, hi, 0x7f7fffff, 97 if c.quick else 1)]

    def one(j):
        for attempt in (1, 2):
            p = subprocess.run([sys.executable, os.path.abspath(__file__), "child", dirs[j[0]], table] + [str(x) for x in j[1:]],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
            if p.returncode == 0: break
        return p
    with vlib.ThreadPoolExecutor(8) as ex: res = list(ex.map(one, jobs))
    for j, p in zip(jobs, res):
        if p.returncode < 0: c.violation("[%s] the library crashed (signal %d) while converting samples" % (j[0], -p.returncode)); continue
        if p.returncode: raise vlib.ModelError(p.stderr[-2000:])
        o = json.loads(p.stdout)
        c.add("conversions replayed", o["cases"])
        if o["bad"]: c.violation("[%s] %d of %d conversions disagree; first: %s" % (j[0], o["bad"], o["cases"], o["first"]))
    os.unlink(table)
    vlib.trace_check(c, "pcm", "TracePcm", cfgs, 16 if c.quick else 32)
    import again
    again.stage(c)
    c.assumptions.append("a product within single-precision rounding of an integer may be truncated to either side; frames are seeded samples plus payloads found to drive each codec to its loudest")


if __name__ == "__main__":
    if sys.argv[1:2] == ["child"]: print(json.dumps(replay(vlib.Lib(sys.argv[2]), sys.argv[3], *map(int, sys.argv[4:7]))))
    else: vlib.main(check, "C19")
