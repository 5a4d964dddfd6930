"""C25: silence, version, predicates, null arguments. Predicates are replayed over every value of each field against
the breakpoints TLC derives from the specification; recorded calls are decided by TLC."""
import ctypes, json, os, random, struct, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, frames
from conceal import CLS, copy

EDGE = [0, 1, -1, -2147483648, 1011666125, 1035154227, 1036295078, 0x3f800000, 0x7f7fffff, 0x00800000]


def drive(lib, t, rng, tier, shard, nshards):
    deep = tier == "thorough"
    l = lib.l
    fast = "release" in lib.dir                       # finite-math builds: numbers that are neither denormal nor infinite
    for _ in range(60 if deep else 12):
        for fn, size in (("mbe_synthesizeSilencef", 4), ("mbe_synthesizeSilence", 2)):
            at = rng.randrange(1, 17) * size
            b = ctypes.create_string_buffer(bytes(rng.randrange(1, 256) for _ in range(160 * size + 128)), 160 * size + 128)
            was = b.raw
            getattr(l, fn)(ctypes.byref(b, at))
            now = b.raw
            t.ev(op="silence", fn=fn, out=list(struct.unpack("<160i" if size == 4 else "<160h", now[at:at + 160 * size])),
                 guard=1 if was[:at] == now[:at] and was[at + 160 * size:] == now[at + 160 * size:] else 0)
        b = ctypes.create_string_buffer(bytes(rng.randrange(1, 256) for _ in range(96)), 96)
        was = b.raw
        s1 = l.mbe_versionString()
        l.mbe_printVersion(ctypes.byref(b, 32))
        now = b.raw
        t.ev(op="version", buf=list(now[32:64]), str=list(s1), macro=list(lib.vp.vp_macro_version()), again=1 if l.mbe_versionString() == s1 else 0,
             guard=1 if was[:32] == now[:32] and was[64:] == now[64:] else 0)
    # predicates on records with every kind of content
    recs = []
    for k in CLS:
        st = lib.stream()
        for i in range(6):
            lib.process(k, "D", "f", frames.bits(rng, k, rng.choice(CLS[k])), st, 0, rng.choice([0, 2, 9]))
            recs += [copy(lib, p) for p in st]
    junk = lib.parms()
    ctypes.memmove(junk, bytes(rng.randrange(256) for _ in range(lib.size)), lib.size)
    recs.append(junk)

    def num():
        w = rng.choice(EDGE) if rng.random() < .5 else rng.getrandbits(32) if rng.random() < .5 else vlib.f2b(rng.uniform(-.2, .2))
        w = (w + (rng.choice([-1, 0, 1]) if rng.random() < .6 else 0)) & 0xffffffff
        w = w - (1 << 32) if w >> 31 else w
        m = w & 0x7fffffff
        if fast and (m >= 0x7f800000 or 0 < m < 0x00800000): return num()
        if m > 0x7f800000: return num()
        return w
    for _ in range(6000 if deep else 700):
        r = copy(lib, rng.choice(recs))
        # the other fields stay what they were, the decided ones vary
        lib.seti(r, "errorRate", num()); lib.seti(r, "mutingThreshold", num())
        lib.seti(r, "errorCountTotal", rng.choice([0, 3, 4, 5, 6, -1, 2147483647, -2147483648, rng.randrange(200)]))
        lib.seti(r, "repeatCount", rng.choice([0, 2, 3, 4, 5, -1, 2147483647, -2147483648, rng.randrange(200)]))
        was = r.raw
        ev = dict(op="pred", rate=lib.get(r, "errorRate"), thr=lib.get(r, "mutingThreshold"), total=lib.get(r, "errorCountTotal"), rc=lib.get(r, "repeatCount"),
                  muting=l.mbe_requiresMuting(r), maxrep=l.mbe_isMaxFrameRepeat(r), smooth=l.mbe_requiresAdaptiveSmoothing(r))
        t.ev(same=1 if r.raw == was else 0, **ev)

    def null(fn, *args, zero=None, ret=False):
        mem = [a for a in args if a is not None and not isinstance(a, int) and a is not zero]
        was = [m.raw for m in mem]
        v = getattr(l, fn)(*args)
        t.ev(op="null", fn=fn, ret=v if ret else 0, same=1 if [m.raw for m in mem] == was else 0, out=list(struct.unpack("<160i", zero.raw)) if zero is not None else [])
    l.mbe_synthesizeTonefdstar.argtypes = [ctypes.c_void_p] * 3 + [ctypes.c_int]
    for _ in range(8):
        for fn in ("mbe_requiresMuting", "mbe_isMaxFrameRepeat", "mbe_requiresAdaptiveSmoothing"): null(fn, None, ret=True)
        for fn in ("mbe_printVersion", "mbe_synthesizeSilencef", "mbe_synthesizeSilence", "mbe_synthesizeComfortNoisef", "mbe_synthesizeComfortNoise"): null(fn, None)
        a, b = copy(lib, rng.choice(recs[:-1])), copy(lib, rng.choice(recs[:-1]))
        null("mbe_applyAdaptiveSmoothing", None, b); null("mbe_applyAdaptiveSmoothing", a, None); null("mbe_applyAdaptiveSmoothing", None, None)
        d = ctypes.create_string_buffer(bytes(frames.bits(rng, "a50", "tone")), 49)
        z = ctypes.create_string_buffer(b"\x41" * 640, 640)
        null("mbe_synthesizeTonef", z, d, None, zero=z)
        z = ctypes.create_string_buffer(b"\x41" * 640, 640)
        null("mbe_synthesizeTonefdstar", z, d, None, rng.randrange(5, 123), zero=z)
        null("mbe_synthesizeTonef", None, d, a); null("mbe_synthesizeTonefdstar", None, d, a, rng.randrange(128))


def replay(lib, what, least, frm, to, stride, thr):
    bad, n = (ctypes.c_int32 * 8)(), ctypes.c_long(0)
    nb = lib.vp.vp_pred(what, ctypes.c_uint32(least & 0xffffffff), ctypes.c_uint32(frm), ctypes.c_uint32(to), ctypes.c_uint32(stride), 0 if "release" in lib.dir else 1, ctypes.c_uint32(thr), bad, ctypes.byref(n))
    return dict(bad=nb, cases=n.value, first="predicate %d on the value with bits %d returned %d, expected %d" % (what, bad[0], bad[1], bad[2]))


def check(c):
    table = os.path.join(c.dir, "helpers.json")
    c.model("DumpHelpers", env={"OUT": table})
    with open(table) as f: b = json.load(f)
    cfgs = ["scalar", "release", "simd", "relscalar"]
    dirs = vlib.build_all(cfgs)
    rng = random.Random(c.seed)
    jobs = []
    for cfg in ("scalar", "release"):
        for what, least, thr in ((0, b["imbe"], b["imbe"] - 1), (1, b["ambe"], b["ambe"] - 1), (2, b["rate"], 0), (3, b["total"], 0), (4, b["repeats"], 0)):
            st = 61 if c.quick else 1
            jobs.append((cfg, what, least, rng.randrange(st), 0xffffffff, st, thr))
            jobs.append((cfg, what, least, max(0, least - 50000), least + 50000, 1, thr))
    def one(j):
        for attempt in (1, 2):
            p = subprocess.run([sys.executable, os.path.abspath(__file__), "child", dirs[j[0]]] + [str(x) for x in j[1:]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
            if p.returncode == 0: break
        return p
    with vlib.ThreadPoolExecutor(8) as ex: res = list(ex.map(one, jobs))
    for j, p in zip(jobs, res):
        if p.returncode < 0: c.violation("[%s] the library crashed (signal %d) in a predicate" % (j[0], -p.returncode)); continue
        if p.returncode: raise vlib.ModelError(p.stderr[-2000:])
        o = json.loads(p.stdout)
        c.add("predicate values replayed", o["cases"])
        if o["bad"]: c.violation("[%s] %d of %d predicate values disagree; first: %s" % (j[0], o["bad"], o["cases"], o["first"]))
    vlib.trace_check(c, "helpers", "TraceHelpers", cfgs, 8 if c.quick else 16)
    import again
    again.stage(c)
    c.assumptions.append("rates and thresholds that are not numbers are outside the property; denormal and infinite ones are not used on builds with finite-math options")


if __name__ == "__main__":
    if sys.argv[1:2] == ["child"]: print(json.dumps(replay(vlib.Lib(sys.argv[2]), *map(int, sys.argv[3:9]))))
    else: vlib.main(check, "C25")
