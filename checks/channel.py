"""C03: channel decoding. TLC sends payloads over the specification's transmitter and checks recovery; the frames and
random ones are decoded by the library; TLC decides the recorded counts and bits (TraceChannel)."""
import ctypes, json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
from vlib import Lib

# vectors of each format: (row, cells high..low, capability) -- where the generator may place correctable errors
VEC = {"i72": [(0, 22, 23, 3), (1, 22, 23, 3), (2, 22, 23, 3), (3, 22, 23, 3), (4, 14, 15, 1), (5, 14, 15, 1), (6, 14, 15, 1)],
       "i71": [(0, 18, 18, 3), (1, 23, 23, 3), (2, 22, 23, 3), (3, 22, 23, 3), (4, 14, 15, 1), (5, 14, 15, 1)],
       "a50": [(0, 23, 23, 3), (1, 22, 23, 3)], "a00": [(0, 23, 23, 3), (1, 22, 23, 3)]}


def jobs(rng, n):
    out = []
    for i in range(n):
        k = ("i72", "i71", "a50", "a00")[i % 4]
        nb = Lib.CODECS[k][2]
        style = i // 4 % 5
        bits = [0] * nb if style == 0 else [1] * nb if style == 1 else [rng.getrandbits(1) for _ in range(nb)]
        cols = Lib.CODECS[k][1]
        err = []
        for (r, hi, n_, cap) in VEC[k]:
            e = rng.choice([0, cap, rng.randrange(cap + 1)]) if i % 7 else 0
            for c in rng.sample(range(n_), e): err.append(r * cols + hi - c + 1)
        if i // 4 % 3 == 0:                                      # every total, counted positions only
            err = []
            slots = [(r, hi - c) for (r, hi, n_, cap) in VEC[k] for c in rng.sample(range(7 if n_ == 18 else 12 if cap == 3 else 15), cap)]
            err = [r * cols + x + 1 for r, x in rng.sample(slots, i // 12 % (len(slots) + 1))]
            if i // 24 % 2: err = [r * cols + x + 1 for r, x in slots[rng.randrange(4):]]
        elif k[0] == "a" and rng.random() < .3: err.append(1)   # the parity position of the first vector
        out.append({"k": k, "bits": bits, "err": err})
    return out


def steps(lib, k, fr):
    rows, cols, nb = lib.CODECS[k]
    f = ctypes.create_string_buffer(bytes(fr), rows * cols)
    d = ctypes.create_string_buffer(nb)
    c0 = lib.ecc0[k](f)
    lib.demod[k](f)
    e = lib.eccd[k](f, d)
    return c0, c0 + e, list(d.raw)


def drive(lib, t, rng, tier, shard, nshards):
    frames = []
    path = os.environ.get("FRAMES")
    if path:
        with open(path) as f: frames = json.load(f)[shard::nshards]
    for i in range(400 if tier == "thorough" else 120):
        k = ("i72", "i71", "a50", "a00")[i % 4]
        rows, cols, nb = lib.CODECS[k]
        if i % 12 < 8: fr = [rng.getrandbits(1) for _ in range(rows * cols)]
        else:  # a frame near a generated one: extra errors beyond capability
            fr = list(rng.choice([x for x in frames if x["k"] == k] or [{"fr": [0] * (rows * cols)}])["fr"])
            for c in rng.sample(range(rows * cols), rng.choice([1, 2, 4, 9])): fr[c] ^= 1
        frames.append({"k": k, "fr": fr})
    for x in frames:
        k, fr = x["k"], x["fr"]
        extra = {"sent": x["sent"]} if "sent" in x else {}
        c0, tot, bits = steps(lib, k, fr)
        t.ev(op="steps", k=k, fr=fr, c0=c0, total=tot, bits=bits, **extra)
        o = lib.process(k, "F", "f", fr, lib.stream(), errs=7, errs2=9)
        t.ev(op="entry", k=k, fr=fr, c0=o["errs"], total=o["errs2"], bits=o["d"], **extra)
    # frames one cell apart in a row: what one frame decodes to owes nothing to its predecessor
    for k in ("i72", "i71", "a50", "a00"):
        rows, cols, nb = lib.CODECS[k]
        fr = [rng.getrandbits(1) for _ in range(rows * cols)]
        for i in range(240 if tier == "thorough" else 30):
            fr = list(fr)
            r = 0 if i % 3 == 0 else 1 if i % 3 == 1 else rng.randrange(rows)
            fr[r * cols + rng.randrange(cols)] ^= 1
            c0, tot, bits = steps(lib, k, fr)
            t.ev(op="steps", k=k, fr=fr, c0=c0, total=tot, bits=bits)


def check(c):
    rng = random.Random(c.seed * 31 + 3)
    nsh = 16
    jp, fp = os.path.join(c.dir, "jobs.ndjson"), os.path.join(c.dir, "frames.json")
    with open(jp, "w") as f:
        for j in jobs(rng, 900 if c.quick else 6000): f.write(json.dumps(j) + "\n")
    c.model("GenChannel", env={"JOBS": jp, "OUT": fp}, heap="6g")
    os.environ["FRAMES"] = fp
    vlib.trace_check(c, "channel", "TraceChannel", ["scalar", "release"], nsh if c.quick else 64)
    import again
    again.stage(c)
    c.assumptions.append("error patterns and payloads are sampled (seeded); each block code is exhaustive in C01/C02 and the scrambler in C04")


if __name__ == "__main__": vlib.main(check, "C03")
