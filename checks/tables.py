"""C01, C02, C04, C05: finite codes and permutations. TLC checks the specification and writes its tables; the harness
replays every entry through the library. A crash of the library is an observation, so the replay runs in a child."""
import ctypes, json, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib

U32, I32 = ctypes.c_uint32, ctypes.c_int32


def arr(xs): return (U32 * len(xs))(*xs)


def r_golay(lib, t, tier, seed):
    enc, err = arr(t["enc"]), arr(t["err"])
    out = []
    for upper in ((0, 1, 2) if tier == "thorough" else (0,) if "scalar" in lib.dir else (1, 2)):
        bad, n = (I32 * 8)(), ctypes.c_long(0)
        nb = lib.vp.vp_golay(enc, err, len(t["err"]), upper, 1000000 if tier == "thorough" else 40000, U32(seed * 2246822519 + upper), bad, ctypes.byref(n))
        out.append({"name": "golay/upper%d" % upper, "bad": nb, "cases": n.value,
                    "first": "data %d error-pattern %#x decoded to %d with count %d (packed form: %#x; buffers intact: %d); expected %d with count %d"
                             % (bad[0], bad[1], bad[2], bad[3], bad[4] & 0xffffffff, bad[5], bad[0], bad[6])})
    return out


def r_hamming(lib, t, tier, seed):
    out = []
    for which, name in ((0, "std"), (1, "alt")):
        bad, n = (I32 * 8)(), ctypes.c_long(0)
        nb = lib.vp.vp_hamming(arr(t["std"]), arr(t["alt"]), which, bad, ctypes.byref(n))
        out.append({"name": "hamming/" + name, "bad": nb, "cases": n.value,
                    "first": "word %#x decoded to %#x with count %d (buffers intact: %d); expected %#x" % (bad[0], bad[2], bad[3], bad[4], bad[1])})
    return out


def r_scramble(lib, t, tier, seed):
    out, masks, dims = [], [], []
    geo = {"i72": (184, 23, 22, 12), "i71": (168, 24, 18, 7), "a50": (96, 24, 23, 12), "a00": (96, 24, 23, 12)}
    for num, (k, (cells, cols, hi, sb)) in enumerate(geo.items()):
        mask = bytearray((1 << sb) * cells)
        pos = t[k]["cells"]
        for s, seq in enumerate(t[k]["seq"]):
            for c, b in zip(pos, seq): mask[s * cells + c - 1] = b
        masks.append(bytes(mask)); dims += [cells, hi, sb]
        bad, n = (I32 * 8)(), ctypes.c_long(0)
        nb = lib.vp.vp_scramble(num, masks[-1], cells, hi, sb, 200 if tier == "thorough" else 12, U32(seed * 2654435761 + num), bad, ctypes.byref(n))
        out.append({"name": "scramble/" + k, "bad": nb, "cases": n.value,
                    "first": "seed %d: cell %d (row %d, column %d) wrong after pass %d" % (bad[0], bad[1], bad[1] // cols, bad[1] % cols, bad[2] + 1)})
    bad, n = (I32 * 8)(), ctypes.c_long(0)
    nb = lib.vp.vp_scramble_mix((ctypes.c_char_p * 4)(*masks), (I32 * 12)(*dims), U32(seed), bad, ctypes.byref(n))
    out.append({"name": "scramble/mixed", "bad": nb, "cases": n.value,
                "first": "formats in turn, format %d seed %d: cell %d wrong after pass %d" % (bad[3], bad[0], bad[1], bad[2] + 1)})
    return out


def r_convert(lib, t, tier, seed):
    flat = bytes(x for row in t for x in row)
    bad, n = (I32 * 8)(), ctypes.c_long(0)
    nb = lib.vp.vp_convert(flat, 20000 if tier == "thorough" else 500, U32(seed * 747796405 + 1), bad, ctypes.byref(n))
    return [{"name": "convert", "bad": nb, "cases": n.value, "first": "pitch field %d: position %d wrong (payload %d)" % (bad[0], bad[1], bad[2])}]


REPLAY = {"C01": ("DumpGolay", r_golay), "C02": ("DumpHamming", r_hamming), "C04": ("DumpScramble", r_scramble), "C05": ("DumpConvert", r_convert)}
ASSUME = {
    "C01": ["the parity positions of the decoded word may be delivered as received or as corrected (nothing reads them)"],
    "C02": [], "C04": ["random contents per seed: a dependence on particular contents beyond the seed bits is sampled, not enumerated"],
    "C05": ["payloads per pitch value are unit vectors, their complements and random words"],
}


def run(c, pid):
    module, _ = REPLAY[pid]
    table = os.path.join(c.dir, module + ".json")
    r = c.model(module, env={"OUT": table}, workers=1)
    c.assumptions += ASSUME[pid]
    cfgs = ["scalar", "release"]
    dirs = vlib.build_all(cfgs)

    def one(cfg):
        for attempt in (1, 2):
            p = subprocess.run([sys.executable, os.path.abspath(__file__), pid, "child", dirs[cfg], table, c.tier, str(c.seed)],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
            if p.returncode == 0: break
        return p
    with vlib.ThreadPoolExecutor(2) as ex: res = list(ex.map(one, cfgs))
    for cfg, p in zip(cfgs, res):
        if p.returncode < 0:
            c.violation("[%s] the library crashed (signal %d) while the specification's table was replayed" % (cfg, -p.returncode))
            continue
        if p.returncode: raise vlib.ModelError(p.stderr[-2000:])
        for o in json.loads(p.stdout):
            c.add("events", o["cases"])
            c.add("traces_validated_against_impl")
            c.sample({"config": cfg, **{k: o[k] for k in ("name", "cases", "bad")}})
            if o["bad"]: c.violation("[%s] %s: %d of %d cases disagree with the specification; first: %s" % (cfg, o["name"], o["bad"], o["cases"], o["first"]))
    os.unlink(table)


if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[2] == "child":
        pid, _, libdir, table, tier, seed = sys.argv[1:7]
        with open(table) as f: t = json.load(f)
        print(json.dumps(REPLAY[pid][1](vlib.Lib(libdir), t, tier, int(seed))))
    else:
        vlib.main(lambda c: run(c, sys.argv[1]), sys.argv[1])
