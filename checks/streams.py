"""C21: isolation of streams. Schedules come from the specification (GenStreams); every call's inputs and results are
recorded as digests and TLC looks for the one function they must all be applications of (TraceStreams)."""
import ctypes, hashlib, json, os, random, struct, sys, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, frames
from conceal import CLS, copy, ambe_fresh
from noise import Worker


def h(*parts): return hashlib.blake2b(b"|".join(parts), digest_size=9).hexdigest()
def hs(recs): return h(*[p.raw for p in recs])


class Stream:
    """A stream's records (somewhere in memory), its script and its position in it."""
    def __init__(self, lib, rng, sid, codec, n, seeded):
        self.lib, self.sid, self.codec, self.seeded = lib, sid, codec, seeded
        self.script = []
        for i in range(n):
            r = rng.random()
            cls = rng.choice(CLS[codec]) if seeded else "voice"
            kind = rng.choice("FD"); fmt = rng.choice("ffs")
            b = frames.bits(rng, codec, cls)
            if kind == "F":
                c0 = rng.choice([0, 0, 0, 1, 2, 3]); tot = c0 + rng.choice([0, 0, 1, 3])
                inp, e, e2 = frames.damage(rng, codec, frames.encode(lib, codec, b), c0, min(tot, frames.capacity(codec) - 3 + c0)), 0, 0
            else: inp, e, e2 = b, rng.choice([0, 0, 1, 3]), rng.choice([0, 0, 1, 2, 3, 6, 9])
            self.script.append((kind, fmt, inp, e, e2, rng.getrandbits(32) if seeded else None))
        self.st, self.pos, self.snap = None, 0, None
        self.states = []                            # the states along the script, from the run alone

    def fresh(self): return ambe_fresh(self.lib) if self.codec[0] == "a" and self.sid % 2 else self.lib.stream()

    def place(self, recs):
        """Continue with copies of recs at a new place; the old place is overwritten."""
        new = [copy(self.lib, p) for p in recs]
        if self.st:
            for p in self.st: ctypes.memset(p, 0xA5, self.lib.size)
        self.st = new

    def sow(self):
        if self.pos < len(self.script) and self.script[self.pos][5] is not None: self.lib.l.mbe_setThreadRngSeed(self.script[self.pos][5])

    def call(self, th, sown=False):
        kind, fmt, inp, e, e2, seed = self.script[self.pos]
        pre = hs(self.st)
        if seed is not None and not sown: self.lib.l.mbe_setThreadRngSeed(seed)
        o = self.lib.process(self.codec, kind, fmt, inp, self.st, e, e2)
        self.pos += 1
        quiet = seed is None and (o["str"].lstrip("=") not in ("", "R"))      # unseeded noise is the thread's own
        pcm = "" if quiet else h(struct.pack("<160i", *o["pcm"]))
        return dict(op="call", s=self.sid, th=th, fn=self.codec + kind + fmt, seed="none" if seed is None else "%08x" % seed, pre=pre, post=hs(self.st),
                    pcm=pcm, num=[], **{"in": h(bytes(inp), b"%d %d" % (e, e2))}, text=o["str"])


def scratch(lib, rng, th, slots, src):
    """Steps smaller than a frame, on scratch records other streams' contents passed through: render a stored model."""
    c, p = rng.choice(src), rng.choice(src)
    A, B = slots[0], slots[1]
    for q in slots: ctypes.memmove(q, rng.choice(src), lib.size)             # what the records held before
    if rng.random() < .5: lib.l.mbe_spectralAmpEnhance(A)                     # enhanced, then replaced without being used
    if rng.random() < .4: lib.l.mbe_spectralAmpEnhance(B)
    ctypes.memmove(A, c, lib.size); ctypes.memmove(B, p, lib.size)
    fn = rng.choice(["enhance", "synth", "synth", "enhsynth", "smooth"])
    seed = 77
    pre = h(c.raw, p.raw)
    lib.l.mbe_setThreadRngSeed(seed)
    o = lib.aligned(640)
    if fn in ("enhance", "enhsynth"): lib.l.mbe_spectralAmpEnhance(A)
    if fn == "enhsynth" and rng.random() < .5: lib.l.mbe_spectralAmpEnhance(slots[2])
    if fn in ("synth", "enhsynth"): lib.l.mbe_synthesizeSpeechf(o, A, B, 3)
    if fn == "smooth": lib.l.mbe_applyAdaptiveSmoothing(A, B)
    L = lib.get(A, "L")
    num = [lib.get(A, "localEnergy")] + lib.get(A, "Ml")[1:L + 1] + list(struct.unpack("<160i", o.raw))[3::9]
    post = h(json.dumps([lib.get(A, n) for n in ("L", "K", "amplitudeThreshold", "errorCountTotal", "repeatCount", "swn", "un")]).encode())
    return dict(op="scratch", s=0, th=th, fn=fn, seed=str(seed), pre=pre, post=post, pcm="", num=num, **{"in": ""})


def drive(lib, t, rng, tier, shard, nshards):
    deep = tier == "thorough"
    N = 40 if deep else 22
    for seeded in (True, False) if deep else ((True,) if shard % 4 else (True, False)):
        codecs = ["i72", "a50", "a00", "i71", "a50", "a00", "i72"]
        ss = [Stream(lib, rng, i + 1, codecs[(i + shard) % 7], N, seeded) for i in range(6 if seeded else 4)]
        # two more that come to hear the same frames as another one, with another past
        both = []
        for m in rng.sample(ss, 2):
            w = Stream(lib, rng, len(ss) + 1, m.codec, N, seeded)
            w.script[8:] = m.script[8:]
            ss.append(w); both.append((m, w))
        # each stream alone, on a thread of its own
        w = Worker()
        for s in ss:
            s.place(s.fresh())
            t.ev(op="start", s=s.sid, pre=hs(s.st))
            for _ in range(N):
                s.states.append([copy(lib, p) for p in s.st])
                t.ev(**w.do(lambda: s.call(0)))
            s.states.append([copy(lib, p) for p in s.st])
        w.stop()
        ws = [Worker() for _ in range(4)]
        slots = [[lib.parms() for _ in range(3)] for _ in ws]

        def start(s, pos):
            s.place(s.states[pos]); s.pos = pos; s.snap = (pos, [copy(lib, p) for p in s.st])
            t.ev(op="start", s=s.sid, pre=hs(s.st))

        def step(s, th, mem):
            if s.pos >= N: return
            if mem == "save": s.snap = (s.pos, [copy(lib, p) for p in s.st]); t.ev(op="save", s=s.sid, pre=hs(s.st))
            if mem == "move": s.place(s.st)
            if mem == "back": s.place(s.snap[1]); s.pos = s.snap[0]; t.ev(op="restore", s=s.sid, pre=hs(s.st))
            t.ev(**ws[th].do(lambda: s.call(th + 1)))
        # the specification's schedules, from random points of the streams
        with open(os.environ["SCHED"]) as f: sched = [json.loads(x) for x in f]
        mine = sched[shard::nshards] if deep and seeded else rng.sample(sched, 140 if seeded else 30)
        pool = [ss[0].states[7][1], ss[1].states[5][2], ss[2].states[9][1]]
        for q in mine:
            a, b = rng.sample(ss, 2)
            start(a, rng.randrange(N - 4)); start(b, rng.randrange(N - 4))
            for x in q:
                step((a, b)[x["s"] - 1], x["th"] - 1, x["mem"])
                if seeded and rng.random() < .4: t.ev(**ws[x["th"] - 1].do(lambda: scratch(lib, rng, x["th"], slots[x["th"] - 1], pool)))
        # the same frames for both, in turn
        for a, b in both * (6 if deep else 3):
            n = rng.randrange(7, N - 4); th = rng.randrange(4)
            start(a, n); start(b, n)
            for _ in range(rng.randrange(3, N - n)):
                step(a, th, "here"); step(b, th if rng.random() < .8 else rng.randrange(4), "here")
        # a long random walk of all streams over all threads
        for s in ss: start(s, 0)
        for _ in range(600 if deep else 240):
            step(rng.choice(ss), rng.randrange(4), rng.choice(["here", "here", "here", "move", "save", "back"]))
        # a seeding takes effect on its own thread's next call, whatever the other threads seed and draw in between
        for _ in range(60 if deep else 40):
            a, b = rng.sample(ss, 2)
            start(a, rng.randrange(N)); start(b, rng.randrange(N))
            if rng.random() < .5: start(a, 0)
            i, j = rng.sample(range(4), 2)
            ws[i].do(a.sow); eb = ws[j].do(lambda: b.call(j + 1)); ea = ws[i].do(lambda: a.call(i + 1, True))
            t.ev(**eb); t.ev(**ea)
        # all at once: every thread runs its own streams to the end
        for s in ss: start(s, rng.randrange(N // 2))
        go = threading.Barrier(4)
        logs = [[] for _ in range(4)]

        def free(i):
            go.wait()
            mine = ss[i::4]
            r = random.Random(i * 7 + shard)
            while any(s.pos < N for s in mine):
                s = r.choice([s for s in mine if s.pos < N])
                logs[i].append(s.call(i + 1))
        for i, x in enumerate(ws): x.q.put(lambda i=i: free(i))
        for x in ws: x.r.get(timeout=100)
        for log in logs:
            for e in log: t.ev(**e)
        for x in ws: x.stop()


def threads(lib, t, rng, tier, shard, nshards):
    """Scripts of every codec (first calls included) run at once on threads of a build with the thread sanitizer."""
    import memory, shutil, tempfile
    for rnd in range(12 if tier == "thorough" else 4):
        work = tempfile.mkdtemp(prefix="thr-", dir=vlib.tmpdir())
        paths = []
        n = rng.choice([2, 4, 8])
        same = rng.random() < .5                     # all threads the same codec, or each its own
        k0 = rng.choice(list(CLS))
        for i in range(n):
            paths.append(os.path.join(work, "s%d" % i))
            s = memory.Script(lib, rng, paths[-1])
            k = k0 if same else list(CLS)[(i + rnd) % 4]
            s.start()
            first = rng.choice(["frame", "direct", "steps"])
            if first != "frame": getattr(s, first)(*([k] if first == "steps" else []))
            for j in range(25):
                s.frame(k)
                if rng.random() < .2: s.steps(k)
                if rng.random() < .1: s.direct()
            s.f.close()
        rc, text = memory.replay(os.environ["TSANDIR"], ["-t", os.path.join(work, "out")] + paths, work)
        t.ev(op="threads", n=n, rc=rc, report=memory.gist(text) if text else "")
        shutil.rmtree(work)


def check(c):
    depth = 3 if c.quick else 4
    r = c.model("GenStreams", workers=1, env={"DEPTH": depth})
    path = os.path.join(c.dir, "sched.ndjson")
    n = 0
    with open(path, "w") as f:
        for line in r.out.splitlines():
            if line.strip().startswith('"['): f.write(json.loads(line.strip()) + "\n"); n += 1
    if n < 4000: raise vlib.ModelError("no schedules: " + r.out[-2000:])
    c.cov["specification schedules"] = n
    os.environ["SCHED"] = path
    vlib.trace_check(c, "streams", "TraceStreams", ["scalar", "release", "simd", "relscalar"], 16 if c.quick else 32)
    os.environ["TSANDIR"] = vlib.build("tsan")
    vlib.trace_check(c, "streams:threads", "TraceStreams", ["scalar"], 6 if c.quick else 8, drive_timeout=300)
    import again
    again.stage(c)
    c.assumptions.append("data races are observed by the thread sanitizer on the executed schedules; records lie at 64-byte boundaries (vectorised code may round differently elsewhere); frames are compared bit for bit, steps smaller than a frame up to rounding; schedules of two streams are enumerated to a bounded length, longer ones are random")


if __name__ == "__main__": vlib.main(check, "C21")
