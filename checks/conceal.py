"""C09-C12: concealment histories. Inputs are behaviours of the specification (a tour over its transitions, dumped by
TLC from GenConceal) plus seeded random walks; every frame is recorded and TLC decides the recorded trace."""
import ctypes, json, math, os, random, sys, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, frames
from vlib import f2b

SEEDS = [1, 2, 77, 0x7fffffff, 0, 0x12345678, 99991, 3]
AMBE_W0 = f2b((math.pi / 32) * (2 * math.pi))


def ambe_fresh(lib):
    """Records a properly started AMBE stream begins with (input construction: the documented defaults)."""
    r = []
    for _ in range(3):
        p = lib.parms()
        lib.seti(p, "w0", AMBE_W0); lib.seti(p, "L", 15)
        for l in range(57): lib.setf(p, "Ml", 1.0, l)
        lib.setf(p, "localEnergy", 75000.0); lib.seti(p, "amplitudeThreshold", 20480)
        lib.setf(p, "mutingThreshold", 0.096); lib.setf(p, "noiseSeed", -1.0)
        r.append(p)
    return r


def copy(lib, p):
    q = lib.parms()
    ctypes.memmove(q, p, lib.size)
    return q


def dig(lib, p, skip=()):
    b = bytearray(p.raw)
    for n in skip:
        o, c = lib.layout[n]
        b[o * 4:(o + c) * 4] = b"\0" * (4 * c)
    L = lib.get(p, "L")       # entries outside bands 1..L carry nothing (the decoder uses them as scratch)
    for n in ("log2Ml", "Ml", "Vl"):
        o, c = lib.layout[n]
        for i in [0] + list(range(max(0, min(56, L)) + 1, c)): b[(o + i) * 4:(o + i + 1) * 4] = b"\0" * 4
    return zlib.crc32(bytes(b)) & 0x7fffffff


CONT = ("PHIl", "PSIl", "noiseSeed", "noiseOverlap", "previousUw")


def digof(lib, p, names):
    h = 0
    for n in names:
        o, c = lib.layout[n]
        h = zlib.crc32(p.raw[o * 4:(o + c) * 4], h)
    return h & 0x7fffffff


def model(lib, p, amps=True):
    L = lib.get(p, "L")
    n = max(0, min(56, L))
    r = {"L": L, "K": lib.get(p, "K"), "w0": lib.get(p, "w0"), "g": lib.get(p, "gamma"),
         "v": lib.get(p, "Vl")[1:n + 1], "x": lib.get(p, "log2Ml")[1:n + 1], "m": lib.get(p, "Ml")[1:n + 1]}
    return r


def sub(pcm): return pcm[3::7]


def fbuf(): return (ctypes.c_float * 160)()


def words(buf): return list(__import__("struct").unpack("<160i", bytes(buf)))


def step(lib, t, codec, kind, inp, errs, errs2, st, seed, uvq=3, **more):
    """One processed frame: runs it on the stream st and logs everything the concealment rules speak about."""
    l = lib.l
    amb = codec[0] == "a"
    pre = [copy(lib, p) for p in st]
    restarted = amb and abs(lib.getf(st[1], "mutingThreshold") - .096) > 1e-6
    if restarted: pre = ambe_fresh(lib)
    l.mbe_setThreadRngSeed(seed)
    o = lib.process(codec, kind, "f", inp, st, errs, errs2, uvq)
    cur, prev, enh = st
    # the decode the frame would give against the state before it
    dc, dp = copy(lib, pre[0]), copy(lib, pre[1])
    db = ctypes.create_string_buffer(bytes(o["d"]), len(o["d"]))
    fam = "i72" if not amb else codec
    ret = lib.decode[fam](db, dc, dp)
    dec = model(lib, dc); dec["ret"] = ret
    # renderings of the same state through the public synthesis entry points
    x, pe, b1 = copy(lib, prev), copy(lib, pre[2]), fbuf()
    l.mbe_setThreadRngSeed(seed)
    l.mbe_spectralAmpEnhance(x); l.mbe_synthesizeSpeechf(b1, x, pe, uvq)
    y, pe2, b2 = copy(lib, pre[2]), copy(lib, pre[2]), fbuf()
    b3, z = fbuf(), copy(lib, pre[0])
    if amb:
        l.mbe_setThreadRngSeed(seed)
        l.mbe_synthesizeSpeechf(b2, y, pe2, uvq)
        if codec == "a50": l.mbe_synthesizeTonef(b3, db, z)
        elif 5 <= ret <= 122: l.mbe_synthesizeTonefdstar(b3, db, z, ret)
    ev = dict(codec=codec, kind=kind, d=o["d"], errs=o["errs"], errs2=o["errs2"], str=o["str"], tail=o["tail"], seed=SEEDS.index(seed) + 1,
              restarted=1 if restarted else 0, pcm=sub(o["pcm"]), sp=sub(words(b1)), rp=sub(words(b2)) if amb else [], tn=sub(words(b3)) if amb else [],
              dec=dec, was=model(lib, pre[1]), now=model(lib, prev),
              rep=[lib.get(pre[1], "repeat"), lib.get(prev, "repeat")], rc=[lib.get(pre[1], "repeatCount"), lib.get(prev, "repeatCount")],
              rate=[lib.get(pre[1], "errorRate"), lib.get(prev, "errorRate")], tot=[lib.get(pre[1], "errorCountTotal"), lib.get(prev, "errorCountTotal")],
              c4=[lib.get(pre[1], "errorCount4"), lib.get(prev, "errorCount4")], cur=[lib.get(cur, "errorRate"), lib.get(cur, "errorCountTotal"), lib.get(cur, "repeatCount")],
              thr=lib.get(prev, "mutingThreshold"),
              kept=[dig(lib, pre[1], ("repeat", "repeatCount", "mutingThreshold")), dig(lib, prev, ("repeat", "repeatCount", "mutingThreshold"))],
              dp=[dig(lib, pre[1]), dig(lib, prev)], de=[dig(lib, pre[2]), dig(lib, enh)], dc=dig(lib, cur),
              cont=[digof(lib, pre[1], CONT), digof(lib, prev, CONT)], carry=1 if digof(lib, prev, CONT) == digof(lib, enh, CONT) else 0,
              ns=lib.get(prev, "noiseSeed"), en=[lib.get(prev, "localEnergy"), lib.get(prev, "amplitudeThreshold")],
              zc=1 if not any(lib.get(prev, "PHIl") + lib.get(prev, "PSIl") + lib.get(prev, "noiseOverlap") + lib.get(prev, "previousUw")) else 0)
    if kind == "F" and not amb: ev["fr"] = list(inp)
    if codec == "a50" and "T" in o["str"]:
        ev.update(yp=[lib.get(enh, "PSIl"), lib.get(y, "PSIl")], yn=[lib.get(enh, "noiseSeed"), lib.get(y, "noiseSeed")], yl=[lib.get(enh, "L"), lib.get(y, "L")])
    ev.update(more)
    t.ev(**ev)
    return ev


def feed(lib, t, rng, codec, kind, cls, c0, total, st, c4=None, tone=None, level=None, first=0, bits=None):
    """A frame of the given class and error counts."""
    b = bits or frames.bits(rng, codec, cls, tone, level)
    seed = rng.choice(SEEDS)
    if kind == "F":
        total = min(total, frames.capacity(codec) - (3 - c0))
        total = max(total, c0)
        fr = frames.damage(rng, codec, frames.encode(lib, codec, b), c0, total, c4)
        return step(lib, t, codec, "F", fr, 7, 9, st, seed, first=first, want=[c0, total])
    return step(lib, t, codec, "D", b, c0, total, st, seed, first=first, want=[c0, total])


def start(lib, rng, codec):
    """A stream: freshly initialised, sometimes with an error history already behind it, or another codec's."""
    st = lib.stream()
    if rng.random() < .6:
        r = rng.choice([0.0, 0.004, 0.0049, 0.012, 0.0126, 0.05, 0.08, 0.0874, 0.0876, 0.09, 0.0955, 0.0965, 0.15])
        if codec[0] == "a": st = ambe_fresh(lib)
        for p in st: lib.setf(p, "errorRate", r)
    elif codec[0] == "i" and rng.random() < .4: st = ambe_fresh(lib)
    return st


def realise(lib, t, rng, codec, seq):
    """seq: inputs of the specification's own state graph: [kind, cls, c0, total]."""
    st = start(lib, rng, codec)
    first = 1
    for kind, cls, c0, total in seq:
        feed(lib, t, rng, codec, kind, cls, c0, total, st, c4=rng.choice([None, 0, 1]), first=first)
        first = 0


CLS = {"i72": ["voice"] * 6 + ["reserved"], "i71": ["voice"] * 6 + ["reserved"],
       "a50": ["voice"] * 5 + ["silence", "erasure", "tone", "badtone"], "a00": ["voice"] * 5 + ["tone", "badtone"]}


def walk(lib, t, rng, codec, n):
    st = start(lib, rng, codec)
    bad = rng.random()
    for i in range(n):
        kind = "F" if rng.random() < .6 else "D"
        cls = rng.choice(CLS[codec])
        if rng.random() < bad:
            c0 = rng.choice([2, 3, 3]); total = c0 + rng.choice([3, 6, 9, 12])
        else:
            c0 = rng.randrange(4); total = c0 + rng.choice([0, 0, 1, 2, 3, 5])
        if kind == "D": total = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 12, 30, rng.choice([20, 45, 64, 100, 128, 200, 256, 300])]) if rng.random() < bad else rng.choice([0, 0, 2, 3])
        feed(lib, t, rng, codec, kind, cls, c0, total, st, c4=rng.choice([None, 0, 1]), first=1 if i == 0 else 0)
        if codec[0] == "i" and rng.random() < .1: codec = "i71" if codec == "i72" else "i72"     # both feed one IMBE stream


def tours(path, codec, shard, nshards, rng):
    """Walks covering every transition of the dumped graph: greedy, each walk restarted from the initial state."""
    with open(path) as f: edges = [json.loads(x) for x in f]
    fam = "imbe" if codec[0] == "i" else codec
    edges = [e for e in edges if e["fam"] == fam]
    out = {}
    for e in edges: out.setdefault(e["a"], []).append(e)
    mine = [i for i, e in enumerate(edges) if i % nshards == shard]
    for i, e in enumerate(edges): e["id"] = i
    todo = set(mine)
    walks = []
    while todo:
        s, w = edges[0]["init"], []
        while todo and len(w) < 60:
            # breadth-first to the nearest uncovered edge
            seen, q, hit = {s: None}, [s], None
            while q and not hit:
                u = q.pop(0)
                es = list(out.get(u, [])); rng.shuffle(es)
                for e in es:
                    if e["id"] in todo: hit = (u, e); break
                    if e["b"] not in seen: seen[e["b"]] = (u, e); q.append(e["b"])
            if not hit: break
            path_, u = [hit[1]], hit[0]
            while seen[u]: path_.append(seen[u][1]); u = seen[u][0]
            for e in reversed(path_): w.append(e["i"]); todo.discard(e["id"])
            s = hit[1]["b"]
        if not w: break
        walks.append(w)
    return walks


def run(lib, t, rng, tier, shard, nshards, codecs):
    codec = codecs[shard % len(codecs)]
    same = max(1, nshards // len(codecs))
    for w in tours(os.environ["EDGES"], codec, shard // len(codecs), same, rng): realise(lib, t, rng, codec, w)
    for _ in range(24 if tier == "thorough" else 14): walk(lib, t, rng, codec, 24)


def drive_imbe(lib, t, rng, tier, shard, nshards): run(lib, t, rng, tier, shard, nshards, ["i72", "i71"])
def drive_a50(lib, t, rng, tier, shard, nshards): run(lib, t, rng, tier, shard, nshards, ["a50"])
def drive_a00(lib, t, rng, tier, shard, nshards): run(lib, t, rng, tier, shard, nshards, ["a00"])
def drive_all(lib, t, rng, tier, shard, nshards): run(lib, t, rng, tier, shard, nshards, ["i72", "a50", "i71", "a00"])


def dump_edges(c):
    edges = os.path.join(c.dir, "edges.ndjson")
    r = c.model("GenConceal", workers=1)
    n = 0
    with open(edges, "w") as f:
        for line in r.out.splitlines():
            line = line.strip()
            if line.startswith('"{'): f.write(json.loads(line) + "\n"); n += 1
    os.environ["EDGES"] = edges
    if n < 100: raise vlib.ModelError("no transitions dumped: " + r.out[-2000:])
    c.cov["specification transitions toured"] = n


def check(c):
    dump_edges(c)
    if not c.quick: c.model("MCConceal", cfg="MCConcealBig", workers=8, heap="8g", timeout=3000)
    else: c.model("MCConceal", workers=2)
    fn = {"C09": "conceal:drive_imbe", "C10": "conceal:drive_a50", "C11": "conceal:drive_a00", "C12": "conceal:drive_all"}[c.pid]
    vlib.trace_check(c, fn, "TraceConceal", ["scalar", "release"], 16 if c.quick else 32, env={"PROP": c.pid})
    import again
    again.stage(c)
    c.assumptions.append("payload bits are sampled (seeded); the classes, error counts and histories come from a tour over every transition of the specification")


if __name__ == "__main__": vlib.main(check, sys.argv[1])
