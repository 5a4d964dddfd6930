I72 = "src/imbe/imbe7200x4400.c"; A50 = "src/ambe/ambe3600x2450.c"; A00 = "src/ambe/ambe3600x2400.c"; COM = "src/ambe/ambe_common.c"
ADA = "src/core/mbe_adaptive.c"; CORE = "src/core/mbelib.c"; UV = "src/core/mbe_unvoiced_fft.c"; ECC = "src/ecc/ecc.c"; I71 = "src/imbe/imbe7100x4400.c"
SEEDS = []
def S(id, prop, needs, breaks, edits, demo, **k): SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

# results remembered from call to call

S("c01-remembered", "C01", "two consecutive words whose syndromes differ only in their top bit", "the error pattern is remembered under ten of the syndrome's eleven bits",
  [(ECC, "    databits = (int)(block_u >> 11);\n    databits ^= golayMatrix[syndrome];", "    static _Thread_local int known = -1, pattern;\n    if (known != (syndrome & 0x3ff)) {\n        known = syndrome & 0x3ff;\n        pattern = golayMatrix[syndrome];\n    }\n    databits = (int)(block_u >> 11);\n    databits ^= pattern;")],
r'''
int main(void) {
    static uint32_t tab[2048];
    for (int i = 0; i < 23; i++) for (int j = i; j < 23; j++) for (int k = j; k < 23; k++) {
        uint32_t e = 1u << i | 1u << j | 1u << k;
        tab[(golay(e >> 11) ^ e) & 0x7ff] = e;
    }
    for (int s = 1; s < 2048; s++) {
        for (int k = 0; k < 2; k++) {
            uint32_t w = golay(rnd() & 4095), r = w ^ tab[k ? s ^ 0x400 : s]; char in[23], out[23];
            for (int i = 0; i < 23; i++) in[i] = (char)(r >> i & 1);
            mbe_golay2312(in, out);
            for (int i = 11; i < 23; i++) if (out[i] != (char)(w >> i & 1)) return fail("not corrected after its neighbour");
        }
    }
    return 0;
}''')

S("c04-remembered", "C04", "two consecutive frames whose first vectors differ in the last keyed bit only", "the AMBE sequence is remembered under the seed without its lowest bit",
  [(COM, "    pr[0] = (unsigned short)(16 * foo);\n    for (i = 1; i < 24; i++) {\n        pr[i] =", "    static _Thread_local unsigned short known = 0xffffu;\n    if ((foo ^ known) > 1) {\n        known = foo;\n    }\n    foo = known;\n    pr[0] = (unsigned short)(16 * foo);\n    for (i = 1; i < 24; i++) {\n        pr[i] =")],
r'''
static void key(char f[4][24], unsigned k) { memset(f, 0, 96); for (int i = 0; i < 12; i++) f[0][23 - i] = (char)(k >> (11 - i) & 1); }
int main(void) {
    for (unsigned k = 0; k < 4096; k += 2) {
        char a[4][24], b[4][24], c[4][24];
        key(a, (k + 2048) & 4095); mbe_demodulateAmbe3600x2450Data(a);
        key(b, k + 1); mbe_demodulateAmbe3600x2450Data(b);
        key(a, (k + 2048) & 4095); mbe_demodulateAmbe3600x2450Data(a);
        key(a, k); mbe_demodulateAmbe3600x2450Data(a);
        key(c, k + 1); mbe_demodulateAmbe3600x2450Data(c);
        if (memcmp(b, c, 96)) return fail("the sequence depends on the frame before");
    }
    return 0;
}''')

S("c06-remembered", "C06", "two consecutive frames with the same 79 voicing and amplitude bits and different pitch", "the spectral residual is remembered under the voicing and amplitude bits, without the pitch that says how to read them",
  [(I72, "    // inverse DCT each Ci,k to give ci,j (Tl) - using cached cosines\n    l = 1;\n    for (i = 1; i <= 6; i++) {\n        ji = ImbeJi[L9][i - 1];", "    // inverse DCT each Ci,k to give ci,j (Tl) - using cached cosines\n    static _Thread_local char known[79];\n    static _Thread_local float residual[57];\n    const int same = (__builtin_memcmp(known, imbe_d + 6, 79) == 0) && (residual[0] != 0.0f);\n    __builtin_memcpy(known, imbe_d + 6, 79);\n    l = 1;\n    for (i = 1; i <= 6; i++) {\n        ji = ImbeJi[L9][i - 1];"),
   (I72, "            Tl[l] = sum;\n            l++;", "            if (!same) {\n                residual[l] = sum;\n            }\n            residual[0] = 1.0f;\n            Tl[l] = residual[l];\n            l++;")],
r'''
int main(void) {
    char a[88], b[88];
    for (int t = 0; t < 50; t++) {
        stream s; start(&s); float m[57];
        int k = (int)(rnd() % 50) * 4; voice72(a, k); memcpy(b, a, 88); setbits(b, P72, 8, k + 5);
        mbe_parms c = s.c, p = s.p; mbe_decodeImbe4400Parms(b, &c, &p);
        memcpy(m, c.log2Ml, sizeof m);
        voice72(a, k);
        mbe_parms q = s.p, r = s.c; mbe_decodeImbe4400Parms(a, &r, &q);   /* another set */
        memcpy(a, b, 88); setbits(a, P72, 8, k);
        q = s.p; r = s.c; mbe_decodeImbe4400Parms(a, &r, &q);             /* its neighbour */
        q = s.p; r = s.c; mbe_decodeImbe4400Parms(b, &r, &q);
        for (int l = 1; l <= r.L; l++) if (!(fabsf(r.log2Ml[l] - m[l]) <= 1e-3f)) return fail("amplitudes depend on the frame before");
    }
    return 0;
}''')

S("c08-remembered", "C08", "the same voice frame twice in a row on one stream", "the predicted sum is kept while bits and record stay the same, whatever the record has come to hold",
  [(A00, "    Sum43 = (((float)0.65 / (float)cur_mp->L) * Sum43);", "    Sum43 = (((float)0.65 / (float)cur_mp->L) * Sum43);\n    static _Thread_local const mbe_parms* owner;\n    static _Thread_local char known[49];\n    static _Thread_local float sum43;\n    if (owner != prev_mp || __builtin_memcmp(known, ambe_d, 49) != 0) {\n        owner = prev_mp;\n        __builtin_memcpy(known, ambe_d, 49);\n        sum43 = Sum43;\n    }\n    Sum43 = sum43;")],
r'''
int main(void) {
    char a[49];
    for (int t = 0; t < 20; t++) {
        stream s; start(&s); mbe_parms c, p, q, r;
        voice00(a, 20 + t); p = s.p; c = s.c;
        mbe_decodeAmbe2400Parms(a, &c, &p); p = c;
        q = p; mbe_decodeAmbe2400Parms(a, &c, &p);
        r = c; mbe_decodeAmbe2400Parms(a, &r, &q);            /* the second frame, on another record */
        for (int l = 1; l <= c.L; l++) if (fabsf(r.log2Ml[l] - c.log2Ml[l]) > 1e-3f) return fail("a repeated frame is predicted from an older past");
    }
    return 0;
}''')

S("c14-remembered", "C14", "two models of the same pitch, the second with more bands", "the cosines are kept while the pitch stays the same, however many bands were needed then",
  [(CORE, "    float cos_tab[57];\n    {\n        const float w0 = cur_mp->w0;", "    static MBE_THREAD_LOCAL float cos_tab[57];\n    static MBE_THREAD_LOCAL float known;\n    if (cur_mp->w0 != known) {\n        const float w0 = cur_mp->w0;\n        known = w0;")],
r'''
int main(void) {
    stream s; float m[57];
    for (int k = 0; k < 3; k++) {
        start(&s); s.c.w0 = 0.15f; s.c.L = k == 1 ? 9 : 20;
        if (k == 0) { s.c.w0 = 0.15000001f; }
        for (int l = 1; l <= 20; l++) s.c.Ml[l] = (float)(100 + 37 * (l % 5));
        if (k == 1) { stream o; start(&o); o.c.w0 = 0.31f; o.c.L = 20; for (int l = 1; l <= 20; l++) o.c.Ml[l] = 5; mbe_spectralAmpEnhance(&o.c); }
        mbe_spectralAmpEnhance(&s.c);
        if (k == 0) memcpy(m, s.c.Ml, sizeof m);
        if (k == 2) for (int l = 1; l <= 20; l++) if (fabsf(s.c.Ml[l] - m[l]) > 1e-2f * m[l]) return fail("weights depend on the model before");
    }
    return 0;
}''')

# things that show only in the long run

S("c17-reseeded", "C17", "more than 65 535 numbers drawn since the seeding", "the comfort-noise generator starts over after 65 536 numbers",
  [(ADA, "    mbe_comfort_noise_seed48 = (mbe_comfort_noise_seed48 * MBE_JAVA_RNG_MULT + MBE_JAVA_RNG_ADD) & MBE_JAVA_RNG_MASK;", "    static MBE_THREAD_LOCAL uint16_t drawn;\n    if (++drawn == 0u) {\n        mbe_comfort_noise_seed48 ^= MBE_JAVA_RNG_INIT_SEED;\n    }\n    mbe_comfort_noise_seed48 = (mbe_comfort_noise_seed48 * MBE_JAVA_RNG_MULT + MBE_JAVA_RNG_ADD) & MBE_JAVA_RNG_MASK;")],
r'''
int main(void) {
    float a[160]; mbe_setThreadRngSeed(77);
    uint64_t x = (77u ^ 0x5DEECE66DULL) & ((1ULL << 48) - 1);
    for (int f = 0; f < 1000; f++) {
        mbe_synthesizeComfortNoisef(a);
        for (int i = 0; i < 160; i++) {
            x = (x * 0x5DEECE66DULL + 0xB) & ((1ULL << 48) - 1);
            if (fabsf(a[i] - (((float)(x >> 24) / 16777216.0f) * 2 - 1) * (0.003f * 32767 / 7)) > 1e-4f) return fail("not the seed's sequence");
        }
    }
    return 0;
}''')

S("c16-restarted", "C16", "a stream of more than 4096 frames", "the noise of a thread starts over every 4096 frames",
  [(UV, "    uint32_t state = (uint32_t)(*seed) % 53125u;", "    static _Thread_local unsigned made;\n    if ((++made & 0xfffu) == 0u) {\n        *seed = 3147.0f;\n    }\n    uint32_t state = (uint32_t)(*seed) % 53125u;"),
   (UV, "    unsigned int state = ((unsigned int)(*seed)) % 53125u;", "    static _Thread_local unsigned made2;\n    if ((++made2 & 0xfffu) == 0u) {\n        *seed = 3147.0f;\n    }\n    unsigned int state = ((unsigned int)(*seed)) % 53125u;")],
r'''
int main(void) {
    stream s; start(&s); float a[160]; char b[88]; int z = 0; char es[64]; mbe_setThreadRngSeed(5);
    float last = -1; voice72(b, 60);
    for (int f = 0; f < 20000; f++) {
        mbe_processImbe4400Dataf(a, &z, &z, es, b, &s.c, &s.p, &s.e, 3);
        if (f) {
            uint32_t x = (uint32_t)last; for (int i = 0; i < 160; i++) x = (171 * x + 11213) % 53125;
            if ((float)x != s.e.noiseSeed) return fail("the noise is not one sequence");
        }
        last = s.e.noiseSeed;
    }
    return 0;
}''')

S("c18-long-tone", "C18", "a tone held for more than 1022 frames", "a held tone loses a sample's worth of phase every 1023 frames",
  [(CORE, "    cur_mp->swn = (int)phase1;", "    static MBE_THREAD_LOCAL unsigned held;\n    if (++held % 1023u == 0u) {\n        phase1 = 0u;\n    }\n    cur_mp->swn = (int)phase1;")],
r'''
int main(void) {
    stream s; start(&s); float a[160]; char d[49]; memset(d, 0, 49);
    for (int i = 0; i < 12; i++) d[i] = 1;
    for (int i = 0; i < 8; i++) d[12 + i] = (char)(41 >> (7 - i) & 1);
    unsigned step = 0;
    for (int f = 0; f < 5000; f++) {
        unsigned p = (unsigned)s.c.swn; mbe_synthesizeTonef(a, d, &s.c);
        unsigned st = (unsigned)s.c.swn - p;
        if (f && st != step) return fail("the tone's phase jumped");
        step = st;
    }
    return 0;
}''')

S("c21-frame-memo", "C21", "two streams whose frames carry the same bits at the same time", "a thread keeps the last D-STAR gain for frames with the same bits, whichever stream they belong to",
  [(A00, "    cur_mp->gamma = deltaGamma + ((float)0.5 * prev_mp->gamma);", "    static _Thread_local char known[49];\n    static _Thread_local float gain;\n    if (__builtin_memcmp(known, ambe_d, 49) != 0) {\n        __builtin_memcpy(known, ambe_d, 49);\n        gain = deltaGamma + ((float)0.5 * prev_mp->gamma);\n    } else if (cur_mp->L < 12) {\n        gain = deltaGamma + ((float)0.5 * prev_mp->gamma);\n    }\n    cur_mp->gamma = gain;")],
r'''
int main(void) {
    char x[49], y[49], z[49]; float a[160]; int n = 0; char es[64];
    for (int t = 0; t < 20; t++) {
        stream s, u, v; start(&s); start(&u);
        voice00(x, 30); voice00(y, 60); voice00(z, 90);
        mbe_processAmbe2400Dataf(a, &n, &n, es, x, &s.c, &s.p, &s.e, 3);
        mbe_processAmbe2400Dataf(a, &n, &n, es, y, &u.c, &u.p, &u.e, 3);
        v = u;
        mbe_processAmbe2400Dataf(a, &n, &n, es, z, &v.c, &v.p, &v.e, 3);   /* alone */
        mbe_processAmbe2400Dataf(a, &n, &n, es, x, &s.c, &s.p, &s.e, 3);
        mbe_processAmbe2400Dataf(a, &n, &n, es, z, &s.c, &s.p, &s.e, 3);   /* both hear the same */
        mbe_processAmbe2400Dataf(a, &n, &n, es, z, &u.c, &u.p, &u.e, 3);
        if (fabsf(u.p.gamma - v.p.gamma) > 1e-4f) return fail("another stream's frame changed this one's gain");
    }
    return 0;
}''')
