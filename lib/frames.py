"""Input generation only: frames that carry given parameter bits and a given number of correctable errors."""
import ctypes, random

VEC = {"i72": [(0, 22, 23, "g"), (1, 22, 23, "g"), (2, 22, 23, "g"), (3, 22, 23, "g"), (4, 14, 15, "h"), (5, 14, 15, "h"), (6, 14, 15, "h"), (7, 6, 7, "-")],
       "i71": [(0, 18, 18, "s"), (1, 23, 23, "g"), (2, 22, 23, "g"), (3, 22, 23, "g"), (4, 14, 15, "j"), (5, 14, 15, "j"), (6, 22, 23, "-")]}
VEC["a50"] = VEC["a00"] = [(0, 23, 23, "g"), (1, 22, 23, "g"), (2, 10, 11, "-"), (3, 13, 14, "-")]
DIM = {"i72": (8, 23, 88), "i71": (7, 24, 88), "a50": (4, 24, 49), "a00": (4, 24, 49)}
DATA = {"g": 12, "s": 7, "h": 11, "j": 11}
HAM = {"h": (0x7f08, 0x78e4, 0x66d2, 0x55b1), "j": (0x7ac8, 0x3d64, 0x1eb2, 0x7591)}


def golay(d):
    w = d << 11
    for t in range(22, 10, -1):
        if w >> t & 1: w ^= 3189 << (t - 11)
    return d << 11 | w


def ham(kind, d):
    for p in range(16):
        w = d << 4 | p
        if all(bin(w & h).count("1") % 2 == 0 for h in HAM[kind]): return w
    raise AssertionError


def encode(lib, k, bits):
    """Frame cells on the air, without errors. Scrambling is the library's own (an involution, decided in C04)."""
    rows, cols, _ = DIM[k]
    fr = [0] * (rows * cols)
    at = 0
    for r, hi, n, kind in VEC[k]:
        nd = DATA.get(kind, n)
        v = int("".join(map(str, bits[at:at + nd])), 2)
        at += nd
        w = golay(v) if kind in "gs" else ham(kind, v) if kind in "hj" else v
        for i in range(n): fr[r * cols + hi - i] = w >> (n - 1 - i) & 1
    if k[0] == "a": fr[0] = sum(fr[1:24]) % 2
    b = ctypes.create_string_buffer(bytes(fr), len(fr))
    lib.demod[k](b)
    return list(b.raw)


def capacity(k): return {"i72": 15, "i71": 14, "a50": 6, "a00": 6}[k]


def damage(rng, k, fr, c0, total, c4=None):
    """Flip data positions so that the channel layer counts c0 errors in the first vector and total in all."""
    rows, cols, _ = DIM[k]
    fr = list(fr)
    def hit(v, n):
        r, hi, nn, kind = v
        for i in rng.sample(range(DATA[kind]), n): fr[r * cols + hi - i] ^= 1
    if k[0] == "a" and c0 == 1 and rng.random() < .5: fr[0] ^= 1      # the parity position
    else: hit(VEC[k][0], c0)
    rest = total - c0
    slots = []
    for i, v in enumerate(VEC[k][1:], 1):
        if v[3] in "gs": slots += [i] * 3
        elif v[3] in "hj":
            if i == 4 and c4 is not None: continue
            slots.append(i)
    if c4 and rest > 0 and k[0] == "i": hit(VEC[k][4], 1); rest -= 1
    rng.shuffle(slots)
    cnt = {}
    for i in slots[:rest]: cnt[i] = cnt.get(i, 0) + 1
    for i, n in cnt.items(): hit(VEC[k][i], n)
    return fr


def setb(d, pos, v):
    for i, p in enumerate(pos): d[p] = (v >> (len(pos) - 1 - i)) & 1


PITCH = {"i72": [0, 1, 2, 3, 4, 5, 85, 86], "i71": [1, 2, 3, 4, 5, 6, 86, 87], "a50": [0, 1, 2, 3, 37, 38, 39], "a00": [0, 1, 2, 3, 4, 5, 48]}


def bits(rng, k, cls, tone=None, level=None):
    """Parameter bits of a class: voice, reserved (IMBE), silence, erasure, tone, badtone (AMBE)."""
    n = DIM[k][2]
    s = rng.random()
    d = [rng.getrandbits(1) for _ in range(n)] if s < .9 else [0] * n if s < .95 else [1] * n
    if k in ("i72", "i71"):
        setb(d, PITCH[k], rng.randrange(208, 256) if cls == "reserved" else rng.randrange(208))
    elif k == "a50":
        if cls in ("tone", "badtone"):
            for i in range(6): d[i] = 1
            t = tone if tone is not None else rng.choice([i for i in range(256) if (5 <= i <= 122 or 128 <= i <= 163) == (cls == "tone")])
            setb(d, list(range(12, 20)), t)
            if rng.random() < .5: d[45:49] = [0] * 4
            else: d[20:24] = d[12:16]
            if level is not None: setb(d, [6, 7, 8, 9, 10, 11, 45 - 1 + 1], 0); setb(d, [6, 7, 8, 9, 10, 11], level >> 1)
        else:
            c = {"voice": lambda: rng.randrange(120), "silence": lambda: rng.choice([124, 125]),
                 "erasure": lambda: rng.choice([120, 121, 122, 123, 126, 127])}[cls]()
            setb(d, PITCH[k], c)
            if d[:6] == [1] * 6:
                d[45:49] = [0, 1, 0, 1]
                if d[12:16] == d[20:24]: d[20] ^= 1
    else:
        if cls in ("tone", "badtone"):
            setb(d, PITCH[k], rng.choice([126, 127]))
            want = tone
            while True:
                i = a00_tone(d)
                ok = (i == want) if want is not None else ((5 <= i <= 122) == (cls == "tone"))
                if ok: break
                for p in (6, 7, 8, 9, 42, 43, 10, 11): d[p] = rng.getrandbits(1)
        else: setb(d, PITCH[k], rng.randrange(126))
    return d


def a00_tone(d):
    f = lambda ps: int("".join(str(d[p]) for p in ps), 2)
    return 32 * (4, 0, 1, 2, 3, 7, 6, 5)[f([6, 7, 8])] + f([9, 42, 43, 10, 11])
