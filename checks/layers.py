"""C20: the layers compose. Every way of splitting the decode of three frames (from the specification) is run against the
float frame entry point from equal states reached by random histories."""
import ctypes, json, os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, frames
from conceal import CLS, SEEDS

INTS = {"L", "K", "Vl", "un", "repeat", "swn", "amplitudeThreshold", "errorCountTotal", "errorCount4", "repeatCount"}


def diffs(lib, X, Y):
    """Every word that differs between two lists of records."""
    out = []
    for r, (a, b) in enumerate(zip(X, Y)):
        if a.raw == b.raw: continue
        wa, wb = lib.words(a), lib.words(b)
        for n, (o, c) in lib.layout.items():
            out += [dict(rec=r, n=n, i=i, a=wa[o + i], b=wb[o + i], f=0 if n in INTS else 1) for i in range(c) if wa[o + i] != wb[o + i]]
    return out


def steps(lib, rng, k, fr):
    rows, cols, nd = lib.CODECS[k]
    f = ctypes.create_string_buffer(bytes(fr), rows * cols)
    d = ctypes.create_string_buffer(bytes([rng.getrandbits(1) for _ in range(nd)]), nd)
    c0 = lib.ecc0[k](f)
    lib.demod[k](f)
    tot = c0 + lib.eccd[k](f, d)
    if k == "i71": lib.l.mbe_convertImbe7100to7200(d)
    return c0, tot, list(d.raw)


def conv(lib, words):
    b = ctypes.create_string_buffer(struct.pack("<160i", *words), 640)
    o = (ctypes.c_short * 160)()
    lib.l.mbe_floattoshort(b, o)
    return list(o)


def frame(lib, t, rng, k, X, Y, how, fmt, cls=None):
    cls = cls or rng.choice(CLS[k] + (["tone"] * 5 if k == "a00" else []))
    b = frames.bits(rng, k, cls)
    cap = frames.capacity(k)
    c0 = rng.choice([0, 0, 1, 2, 3]); tot = min(c0 + rng.choice([0, 0, 1, 2, 4, 8]), cap - 3 + c0)
    if k == "a00" and "tone" in cls: c0 = rng.choice([0, 1, 2]); tot = min(3, c0 + rng.choice([0, 1, 2]))
    fr = frames.damage(rng, k, frames.encode(lib, k, b), c0, tot, rng.choice([0, 0, None]))
    if rng.random() < .05: fr = [rng.getrandbits(1) for _ in fr]
    rate0 = lib.get(X[1], "errorRate")
    restarted = k[0] == "a" and abs(lib.getf(X[1], "mutingThreshold") - .096) > 1e-6
    seed = rng.choice(SEEDS)
    lib.l.mbe_setThreadRngSeed(seed)
    x = lib.process(k, "F", "f", fr, X, 7, 9, rng.choice([3, 3, 0, 64, -5]))
    lib.l.mbe_setThreadRngSeed(seed)
    if how == "F": y = lib.process(k, "F", fmt, fr, Y, rng.randrange(9), rng.randrange(9), rng.choice([3, 0, 1, 63]))
    else:
        e, e2, d = steps(lib, rng, k, fr)
        y = lib.process(k, "D", fmt, d, Y, e, e2, rng.choice([3, 0, 1, 63]))
    d = diffs(lib, X, Y)
    c4 = 1 if k[0] == "i" and coset4(lib, k, fr) else 0
    if fmt == "f": d += [dict(rec=9, n="pcm", i=i, a=p, b=q, f=1) for i, (p, q) in enumerate(zip(x["pcm"], y["pcm"])) if p != q]
    ev = dict(op="frame", codec=k, kind="F", how=how, fmt=fmt, d=x["d"], errs=x["errs"], errs2=x["errs2"], c4=c4, rate=[0 if restarted else rate0],
              sd=int(x["d"] == y["d"]), sc=int((x["errs"], x["errs2"]) == (y["errs"], y["errs2"])), st=int(x["str"] == y["str"]), text=[x["str"], y["str"]],
              diff=d[:40])
    if fmt == "s": ev.update(y16=y["pcm"], xf=x["pcm"], conv=conv(lib, x["pcm"]))
    t.ev(**ev)
    if d or x["str"] != y["str"]:                     # a different context: continue from the same state again
        for p, q in zip(X, Y): ctypes.memmove(q, p, lib.size)


def coset4(lib, k, fr):
    """Whether the fourth coset arrives damaged (its count is context the parameter entry point does not get)."""
    rows, cols, nd = lib.CODECS[k]
    f = ctypes.create_string_buffer(bytes(fr), rows * cols)
    lib.ecc0[k](f); lib.demod[k](f)
    w = sum((f.raw[4 * cols + i] & 1) << i for i in range(15))
    return any(bin(w & h).count("1") % 2 for h in frames.HAM["h" if k == "i72" else "j"])


def drive(lib, t, rng, tier, shard, nshards):
    with open(os.environ["WAYS"]) as f: ways = [json.loads(x) for x in f]
    k = ("i72", "a50", "i71", "a00")[shard % 4]
    mine = ways[shard // 4::max(1, nshards // 4)] if tier != "thorough" else ways
    mine = mine * (3 if tier == "thorough" else 7)
    X = lib.stream(); Y = lib.stream()
    for i, w in enumerate(mine):
        if i % 6 == 0:
            X = lib.stream()
            if k[0] == "i" and rng.random() < .5:
                for p in X: lib.setf(p, "errorRate", rng.choice([.001, .004, .0049, .011, .02, .08, .09]))
            for _ in range(rng.randrange(4)):           # a history behind it
                lib.process(k, "D", "f", frames.bits(rng, k, rng.choice(CLS[k])), X, 0, rng.choice([0, 0, 2, 9]))
            for p, q in zip(X, Y): ctypes.memmove(q, p, lib.size)
        for how, fmt in w: frame(lib, t, rng, k, X, Y, how, fmt)
        # the bare synthesis entry points
        a, b = [lib.parms() for _ in range(2)], [lib.parms() for _ in range(2)]
        for p, q, r in zip(X[1:], a, b): ctypes.memmove(q, p, lib.size); ctypes.memmove(r, p, lib.size)
        s = rng.choice(SEEDS)
        o1, o2 = lib.aligned(640), lib.aligned(320)
        lib.l.mbe_setThreadRngSeed(s); lib.l.mbe_synthesizeSpeechf(o1, a[0], a[1], 3)
        lib.l.mbe_setThreadRngSeed(s); lib.l.mbe_synthesizeSpeech(o2, b[0], b[1], 3)
        xf = list(struct.unpack("<160i", o1.raw))
        t.ev(op="syn", xf=xf, y16=list(struct.unpack("<160h", o2.raw)), conv=conv(lib, xf))


def check(c):
    r = c.model("GenLayers", workers=1)
    path = os.path.join(c.dir, "ways.ndjson")
    n = 0
    with open(path, "w") as f:
        for line in r.out.splitlines():
            if line.strip().startswith('"['): f.write(json.loads(line.strip()) + "\n"); n += 1
    if n != 64: raise vlib.ModelError("no programs: " + r.out[-2000:])
    c.cov["specification programs"] = n
    os.environ["WAYS"] = path
    vlib.trace_check(c, "layers", "TraceLayers", ["scalar", "release", "simd", "relscalar"], 16 if c.quick else 48)
    c.assumptions.append("where the parameter entry point would be given a different context than the frame entry point uses, only bits and counts are compared; floats may differ by single-precision rounding")


if __name__ == "__main__": vlib.main(check, "C20")
