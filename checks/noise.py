"""C17: noise generators. Histories of two threads come from the specification (GenNoise); more are random walks of
three threads, with seeds of every kind, in every schedule the driver picks, and with all threads running freely."""
import ctypes, json, os, queue, random, struct, sys, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
from conceal import copy

EDGE = [0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, 0x12345678, 0x6d25357b, 53125, 53124, 0x5deece66]


class Worker:
    """A thread of its own; jobs run one at a time, in the order given, unless free() is used."""
    def __init__(self):
        self.q, self.r = queue.Queue(), queue.Queue()
        self.t = threading.Thread(target=self.loop, daemon=True); self.t.start()
    def loop(self):
        while True:
            f = self.q.get()
            if f is None: return
            self.r.put(f())
    def do(self, f): self.q.put(f); return self.r.get(timeout=60)
    def stop(self): self.q.put(None); self.t.join()


def noisy(lib, rng):
    """A record that synthesis mutes by itself."""
    st = lib.stream()
    for p in st: lib.seti(p, "repeatCount", rng.choice([4, 5, 9]))
    return st


def perform(lib, rng, th, op, arg, rec):
    """One operation; returns the event."""
    l = lib.l
    if op == "seed":
        l.mbe_setThreadRngSeed(arg)
        return dict(op="seed", th=th, seed=[arg >> 16, arg & 0xffff])
    if op == "comfort":
        how = rng.choice(["f", "s", "f", "synf", "syns"])
        if how in ("f", "synf"):
            b = (ctypes.c_float * 160)()
            if how == "f": l.mbe_synthesizeComfortNoisef(b)
            else: st = noisy(lib, rng); l.mbe_synthesizeSpeechf(b, st[0], st[2], 3)
            return dict(op="comfort", th=th, how=how, fmt="f", out=list(struct.unpack("<160i", bytes(b))))
        b = (ctypes.c_short * 160)()
        if how == "s": l.mbe_synthesizeComfortNoise(b)
        else: st = noisy(lib, rng); l.mbe_synthesizeSpeech(b, st[0], st[2], 3)
        return dict(op="comfort", th=th, how=how, fmt="s", out=list(b))
    if op == "many":
        f, s = (ctypes.c_float * 160)(), (ctypes.c_short * 160)()
        for i in range(arg):
            if i % 3: l.mbe_synthesizeComfortNoisef(f)
            else: l.mbe_synthesizeComfortNoise(s)
        return dict(op="many", th=th, n=arg)
    if op == "cold":
        st = lib.stream()
        b = (ctypes.c_float * 160)()
        l.mbe_synthesizeSpeechf(b, st[0], st[2], 3)
        rec[0] = st[0]
        return dict(op="cold", th=th, seed1=int(lib.getf(st[0], "noiseSeed")), ov1=[int(lib.getf(st[0], "noiseOverlap", i)) for i in range(96)])
    st = rec[0] or lib.stream()[0]
    if lib.getf(st, "noiseSeed") < 0:
        lib.setf(st, "noiseSeed", rng.randrange(53125))
    b = (ctypes.c_float * 160)()
    s0 = int(lib.getf(st, "noiseSeed"))
    p = copy(lib, st)
    l.mbe_synthesizeSpeechf(b, st, p, 3)
    return dict(op="warm", th=th, seed0=s0, seed1=int(lib.getf(st, "noiseSeed")), ov1=[int(lib.getf(st, "noiseOverlap", i)) for i in range(96)])


def drive(lib, t, rng, tier, shard, nshards):
    mode = shard % 2
    if mode == 0:
        # specification histories, each on two fresh threads; several of them share the trace, so a fresh thread gets
        # a fresh number (1..8), and a trace ends when the numbers are used up: threads are re-seeded instead
        with open(os.environ["HISTS"]) as f: hists = [json.loads(x) for x in f]
        mine = hists[shard // 2::max(1, nshards // 2)]
        if tier != "thorough": mine = rng.sample(mine, min(len(mine), 90))
        val = {"0": 0, "a": rng.getrandbits(32), "b": rng.choice(EDGE)}
        first = True
        ws = [Worker(), Worker()]
        rec = [[None], [None]]
        for h in mine:
            if not first:
                for i in (0, 1):
                    s = rng.getrandbits(32)
                    t.ev(**ws[i].do(lambda: perform(lib, rng, i + 1, "seed", s, rec[i])))
            first = False
            for th, op, arg in h:
                t.ev(**ws[th - 1].do(lambda: perform(lib, rng, th, op, val.get(arg), rec[th - 1])))
        for w in ws: w.stop()
        return
    ws = [Worker() for _ in range(4)]
    rec = [[None] for _ in range(4)]
    n = 600 if tier == "thorough" else 110
    for _ in range(n):
        i = rng.randrange(4)
        op = rng.choice(["seed", "comfort", "comfort", "comfort", "cold", "warm"])
        s = rng.choice(EDGE) if rng.random() < .5 else rng.getrandbits(32)
        t.ev(**ws[i].do(lambda: perform(lib, rng, i + 1, op, s, rec[i])))
    # hours of noise: the generator is where that many draws have brought it
    for i in range(4):
        for n in rng.sample([1, 2, 255, 409, 410, 3000, rng.randrange(20000), 70000 if i == 0 else 5000], 5):
            t.ev(**ws[i].do(lambda: perform(lib, rng, i + 1, "many", n, rec[i])))
            t.ev(**ws[i].do(lambda: perform(lib, rng, i + 1, "comfort", None, rec[i])))
    # free running: threads 5..8 start unseeded and run at the same time; only the order within a thread matters
    logs = [[] for _ in range(4)]
    seeds = [rng.getrandbits(32) for _ in range(4)]
    go = threading.Barrier(4)
    def free(i):
        r = random.Random(seeds[i]); rc = [None]
        go.wait()
        for k in range(40 if tier != "thorough" else 200):
            op = r.choice(["seed", "comfort", "comfort", "cold", "warm", "warm"])
            s = r.choice(EDGE) if r.random() < .5 else r.getrandbits(32)
            logs[i].append(perform(lib, r, i + 5, op, s, rc))
    ts = [threading.Thread(target=free, args=(i,)) for i in range(4)]
    for x in ts: x.start()
    for x in ts: x.join()
    for log in logs:
        for e in log: t.ev(**e)
    for w in ws: w.stop()


def check(c):
    depth = 3 if c.quick else 4
    r = c.model("GenNoise", workers=1, env={"DEPTH": depth})
    path = os.path.join(c.dir, "hists.ndjson")
    n = 0
    with open(path, "w") as f:
        for line in r.out.splitlines():
            line = line.strip()
            if line.startswith('"['): f.write(json.loads(line) + "\n"); n += 1
    if n < 100: raise vlib.ModelError("no histories: " + r.out[-2000:])
    c.cov["specification histories"] = n
    os.environ["HISTS"] = path
    vlib.trace_check(c, "noise", "TraceNoise", ["scalar", "release", "simd", "relscalar"], 16 if c.quick else 32)
    import again
    again.stage(c)
    c.assumptions.append("quick runs a seeded sample of the two-thread histories of 3 operations, thorough all of 4; seeds are sampled with the boundary values always included")


if __name__ == "__main__": vlib.main(check, "C17")
