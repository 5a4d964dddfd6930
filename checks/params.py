"""C06, C07, C08: parameter decoders. Random and systematic payloads against random and reachable previous models."""
import ctypes, os, random, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
from vlib import f2b

PITCH = {"i72": [0, 1, 2, 3, 4, 5, 85, 86], "a50": [0, 1, 2, 3, 37, 38, 39], "a00": [0, 1, 2, 3, 4, 5, 48]}


def setb(d, pos, v):
    for i, p in enumerate(pos): d[p] = (v >> (len(pos) - 1 - i)) & 1


INTS = {"L": 57, "K": 13, "repeat": 6, "repeatCount": 6, "swn": 9, "un": 9, "errorCountTotal": 60, "errorCount4": 5, "Vl": 2}
POOL = []


def garbage(lib, rng, p):
    """Finite nonsense in every field: either of the fields' own kind, or small numbers everywhere."""
    if not POOL: POOL.extend(rng.uniform(-3, 3) for _ in range(2000))
    R = rng.random
    wide = R() < .7
    for n, (o, c) in lib.layout.items():
        if n in INTS: v = [int(R() * (INTS[n] if wide else 2)) for _ in range(c)]
        elif wide and n == "amplitudeThreshold": v = [rng.choice([20480, 6000, 100000])]
        elif n in ("previousUw", "noiseOverlap") or (not wide and c > 1):
            k = int(R() * (len(POOL) - c)); v = POOL[k:k + c]
        elif not wide: v = [6 * R() - 3]
        elif n == "errorRate": v = [rng.choice([0.0, .004, .02, .025, .05, .0876, .0961, .2 * R()])]
        elif n == "localEnergy": v = [rng.choice([10000.0, 75000.0, 10 ** (4 + 5 * R())])]
        elif n == "mutingThreshold": v = [rng.choice([.0875, .096])]
        elif n == "noiseSeed": v = [int(R() * 53126) - 1]
        elif n == "w0": v = [.05 + .27 * R()]
        elif n in ("Ml", "log2Ml"): v = [18 * R() - 3 for _ in range(c)]
        elif n == "gamma": v = [19 * R() - 4]
        else: v = [6 * R() - 3 for _ in range(c)]
        struct.pack_into("<%d%s" % (c, "i" if isinstance(v[0], int) and n != "noiseSeed" else "f"), p, o * 4, *v)


def prevmodel(lib, rng, p, style):
    garbage(lib, rng, p)
    L = rng.choice([9, 56, 30, 55, rng.randrange(9, 57)])
    lib.seti(p, "L", L)
    lib.seti(p, "K", 12)
    lib.setf(p, "w0", 2.92 / L)
    lib.setf(p, "gamma", rng.uniform(-3, 14))
    base = rng.uniform(-2, 10)
    for l in range(57):
        v = {0: 0.0, 1: base + rng.uniform(-1, 1), 2: rng.uniform(-4, 16), 3: base + l * .1, 4: 14.0 if l == L else 0.0}[style]
        lib.setf(p, "log2Ml", v, l)
        lib.setf(p, "Ml", 2.0 ** v, l)


def outs(lib, ret, cur, codec):
    L = lib.get(cur, "L")
    Lc = max(0, min(56, L))
    o = {"ret": ret, "L": L, "w0": lib.get(cur, "w0"), "Vl": lib.get(cur, "Vl")[1:1 + Lc], "Ml": lib.get(cur, "Ml")[1:1 + Lc],
         "log": lib.get(cur, "log2Ml")[1:1 + Lc]}
    if codec == "i72": o["K"] = lib.get(cur, "K")
    else: o["gamma"] = lib.get(cur, "gamma")
    return o


def one(lib, t, rng, codec, d, prev):
    """prev: a parameter record. Decodes twice, with unrelated contents elsewhere, and logs the call."""
    res = []
    raw = prev.raw
    for i in (0, 1):
        cur, pv = lib.parms(), lib.parms()
        garbage(lib, rng, cur)
        ctypes.memmove(pv, raw, lib.size)
        if i == 1:   # everything the rule does not name gets other contents
            keep = ("L", "log2Ml", "gamma") if codec != "i72" else ("L", "log2Ml")
            sv = {k: lib.get(pv, k) for k in keep}
            garbage(lib, rng, pv)
            for k, v in sv.items():
                for j, x in enumerate(v if isinstance(v, list) else [v]): lib.seti(pv, k, x, j)
        buf = ctypes.create_string_buffer(bytes(d), len(d))
        r = lib.decode[codec](buf, cur, pv)
        res.append(outs(lib, r, cur, codec))
        if i == 0: keepcur = cur
    a, b = res
    same = 1 if (a == b if a["ret"] == 0 else a["ret"] == b["ret"]) else 0
    ev = dict(a)
    lp = lib.parms(); ctypes.memmove(lp, raw, lib.size)
    ev.update(d=list(d), pL=lib.get(lp, "L"), plog=lib.get(lp, "log2Ml"), same=same)
    if codec != "i72": ev["pgamma"] = lib.get(lp, "gamma")
    t.ev(**ev)
    return keepcur, a["ret"]


def payload(rng, codec, n):
    nb = {"i72": 88, "a50": 49, "a00": 49}[codec]
    s = rng.random()
    if s < .75: return [rng.getrandbits(1) for _ in range(nb)]
    if s < .85: return [0] * nb
    if s < .95: return [1] * nb
    return [i & 1 for i in range(nb)]


def run(lib, t, rng, tier, shard, nshards, codec):
    n = {"i72": 240, "a50": 700, "a00": 700}[codec] * (3 if tier == "thorough" else 1)
    npitch = 1 << len(PITCH[codec])
    k = 0
    while k < n:
        prev = lib.parms()
        prevmodel(lib, rng, prev, rng.randrange(5))
        for step in range(rng.choice([1, 1, 2, 6])):
            d = payload(rng, codec, k)
            # walk the pitch codes systematically over the shards, the rest at random
            c = (k * nshards + shard) % npitch if k % 3 < 2 else rng.randrange(npitch)
            if codec == "i72" and c > 207 and rng.random() < .7: c = rng.randrange(208)
            if not (codec != "i72" and k % 10 == 9): setb(d, PITCH[codec], c)
            elif codec == "a50":
                for i in range(6): d[i] = 1
                if rng.random() < .5: d[45:49] = [0] * 4
                else: d[20:24] = d[12:16]
            elif codec == "a00":
                for i in range(6): d[i] = 1
            cur, ret = one(lib, t, rng, codec, d, prev)
            k += 1
            if k % 3 == 0:   # the same again but for one bit, or but for one value of the previous model
                again = lib.parms()
                ctypes.memmove(again, prev.raw, lib.size)
                d2 = list(d)
                if rng.random() < .4: d2[rng.randrange(len(d2))] ^= 1
                elif codec != "i72" and rng.random() < .3: lib.setf(again, "gamma", rng.uniform(-3, 14))
                else:
                    for _ in range(rng.choice([1, 1, 5])): lib.setf(again, "log2Ml", rng.uniform(-4, 14), rng.randrange(1, lib.get(again, "L") + 1))
                one(lib, t, rng, codec, d2, again)
                k += 1
            if ret == 0: prev = cur


def drive(lib, t, rng, tier, shard, nshards): run(lib, t, rng, tier, shard, nshards, "i72")
def drive_a50(lib, t, rng, tier, shard, nshards): run(lib, t, rng, tier, shard, nshards, "a50")
def drive_a00(lib, t, rng, tier, shard, nshards): run(lib, t, rng, tier, shard, nshards, "a00")


def check(c):
    fn, mod = {"C06": ("params", "TraceImbe"), "C07": ("params:drive_a50", "TraceAmbe2450"), "C08": ("params:drive_a00", "TraceAmbe2400")}[c.pid]
    vlib.trace_check(c, fn, mod, ["scalar", "release"], 16 if c.quick else 64)
    import again
    again.stage(c)
    c.assumptions.append("payloads and previous models are sampled (seeded): every pitch code is visited, field values at random")


if __name__ == "__main__": vlib.main(check, sys.argv[1])
