"""C22: initialisation, copying and the switch to an AMBE codec. Programs come from the specification (GenRecords)."""
import ctypes, hashlib, json, os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, frames
from conceal import CLS, copy, ambe_fresh

FIELDS = ["w0", "L", "K", "Vl", "Ml", "log2Ml", "PHIl", "PSIl", "gamma", "un", "repeat", "swn", "localEnergy", "amplitudeThreshold", "errorRate",
          "errorCountTotal", "errorCount4", "repeatCount", "mutingThreshold", "previousUw", "noiseSeed", "noiseOverlap"]


def ident(p): return hashlib.blake2b(p.raw, digest_size=9).hexdigest()
def idents(st): return [ident(p) for p in st]


def frame(lib, rng, codec):
    cls = rng.choice(CLS[codec]); b = frames.bits(rng, codec, cls)
    if rng.random() < .5: return "D", b, 0, rng.choice([0, 0, 0, 2, 3, 5, 9])
    c0 = rng.choice([0, 0, 0, 1, 2, 3]); tot = min(c0 + rng.choice([0, 0, 1, 3]), frames.capacity(codec) - 3 + c0)
    return "F", frames.damage(rng, codec, frames.encode(lib, codec, b), c0, tot), 0, 0


def run(lib, codec, f, st, seed, fmt):
    kind, inp, e, e2 = f
    lib.l.mbe_setThreadRngSeed(seed)
    o = lib.process(codec, kind, fmt, inp, st, e, e2)
    return dict(ids=idents(st), out=hashlib.blake2b(repr(sorted(o.items())).encode(), digest_size=9).hexdigest(), str=o["str"])


def soil(lib, rng, p, pool):
    """What a record may hold before: anything."""
    r = rng.random()
    if r < .3: ctypes.memmove(p, bytes(rng.getrandbits(8) for _ in range(lib.size)), lib.size)
    elif r < .4: ctypes.memset(p, rng.choice([0, 0xff, 0xa5]), lib.size)
    elif r < .7: ctypes.memmove(p, rng.choice(pool), lib.size)
    else:
        ctypes.memmove(p, rng.choice(pool), lib.size)
        for _ in range(rng.randrange(1, 4)):
            n = rng.choice(FIELDS); o, c = lib.layout[n]
            struct.pack_into("<i", p, (o + rng.randrange(c)) * 4, rng.choice([0, 1, -1, 3, 0x3f800000, 1 << 30, 1036295078]))


def drive(lib, t, rng, tier, shard, nshards):
    deep = tier == "thorough"
    with open(os.environ["PROGS"]) as f: progs = [json.loads(x) for x in f]
    rng.shuffle(progs)
    pool = []
    for k in CLS:
        st = lib.stream()
        for i in range(12):
            run(lib, k, frame(lib, rng, k), st, 7, "f")
            pool += [copy(lib, p) for p in st]
    mine = progs[:(len(progs) // nshards + 1 if deep else 400)]
    for prog in mine:
        st = [lib.parms() for _ in range(3)]; spare = lib.parms()
        slots = {"c": st[0], "p": st[1], "e": st[2], "x": spare}
        for s, p in slots.items():
            soil(lib, rng, p, pool); t.ev(op="junk", at=[s], ids=[ident(p)])
        def init():
            lib.l.mbe_initMbeParms(*st)
            t.ev(op="init", at=["c", "p", "e"], ids=idents(st), rec=lib.rec(st[rng.randrange(3)], FIELDS))
        for op in prog:
            if op == "init": init()
            elif op == "junk":
                for s in "cpe": soil(lib, rng, slots[s], pool); t.ev(op="junk", at=[s], ids=[ident(slots[s])])
            elif op in ("move", "use"):
                # away and back, so that the previous record is a copy of a copy
                for a, b in (("p", "x"), ("x", "p")):
                    if a == "x": soil(lib, rng, slots["p"], pool); t.ev(op="junk", at=["p"], ids=[ident(slots["p"])])
                    if rng.random() < .3 and b == "x": soil(lib, rng, slots["x"], pool); t.ev(op="junk", at=["x"], ids=[ident(slots["x"])])
                    was = ident(slots[a])
                    if op == "move": lib.l.mbe_moveMbeParms(slots[a], slots[b])
                    else: lib.l.mbe_useLastMbeParms(slots[b], slots[a])
                    t.ev(**{"op": op, "from": a, "to": b, "was": was, "src": ident(slots[a]), "dst": ident(slots[b])})
            else:
                seed = rng.getrandbits(32); f = frame(lib, rng, op); fmt = rng.choice("ffs")
                pre = idents(st)
                tw = run(lib, op, f, ambe_fresh(lib), seed, fmt) if op[0] == "a" else dict(ids=[], out="", str="")
                r = run(lib, op, f, st, seed, fmt)
                t.ev(op="frame", codec=op, kind=f[0], at=["c", "p", "e"], pre=pre, post=r["ids"], out=r["out"], str=r["str"], twin=tw)
    # AMBE streams with a past (tones, voice, damage) that are muted: all three records start over
    for _ in range(24 if deep else 20):
        k = rng.choice(["a50", "a00"]); st = ambe_fresh(lib)
        for _ in range(rng.randrange(1, 8)):
            cls = rng.choice(["tone", "tone", "voice", "voice", "erasure", "badtone"] if k == "a50" else ["tone", "voice", "erasure"])
            lib.process(k, "D", "f", frames.bits(rng, k, cls), st, 0, 0)
        if rng.random() < .7: lib.process(k, "D", "f", frames.bits(rng, k, "voice"), st, 0, 0)
        for n in range(6):
            o = lib.process(k, "D", "f", frames.bits(rng, k, "voice"), st, 9, 9)
            if o["str"].endswith("M"): break
        t.ev(op="reset", codec=k, str=o["str"], n=n, ids=idents(st), fresh=idents(ambe_fresh(lib)), rec=lib.rec(st[rng.randrange(3)], FIELDS))
    # streams that go on for a while after the switch
    for _ in range(24 if deep else 14):
        k = rng.choice(["a50", "a00"])
        a = lib.stream()
        for p in a if rng.random() < .3 else []: soil(lib, rng, p, pool)
        lib.l.mbe_initMbeParms(*a)
        if rng.random() < .5:
            for _ in range(rng.randrange(1, 8)):
                kk = rng.choice(["i72", "i71"]); run(lib, kk, frame(lib, rng, kk), a, rng.getrandbits(32), "f")
        b = ambe_fresh(lib)
        for n in range(40 if deep else 24):
            f = frame(lib, rng, k); seed = rng.getrandbits(32); fmt = rng.choice("fs")
            x, y = run(lib, k, f, a, seed, fmt), run(lib, k, f, b, seed, fmt)
            t.ev(op="twin", codec=k, n=n, a=x, b=y)


def check(c):
    depth = 4 if c.quick else 5
    r = c.model("GenRecords", workers=1, env={"DEPTH": depth})
    path = os.path.join(c.dir, "progs.ndjson")
    n = 0
    with open(path, "w") as f:
        for line in r.out.splitlines():
            if line.strip().startswith('"['): f.write(json.loads(line.strip()) + "\n"); n += 1
    if n < 500: raise vlib.ModelError("no programs: " + r.out[-2000:])
    c.cov["specification programs"] = n
    os.environ["PROGS"] = path
    vlib.trace_check(c, "records", "TraceRecords", ["scalar", "release", "simd", "relscalar"], 16 if c.quick else 32)
    import again
    again.stage(c)
    c.assumptions.append("records lie at 64-byte boundaries; frames are compared bit for bit with the same frames on records constructed with the documented AMBE defaults")


if __name__ == "__main__": vlib.main(check, "C22")
