I72 = "src/imbe/imbe7200x4400.c"; A50 = "src/ambe/ambe3600x2450.c"; A00 = "src/ambe/ambe3600x2400.c"; COM = "src/ambe/ambe_common.c"
ADA = "src/core/mbe_adaptive.c"; CORE = "src/core/mbelib.c"; UV = "src/core/mbe_unvoiced_fft.c"; ECC = "src/ecc/ecc.c"; I71 = "src/imbe/imbe7100x4400.c"
SEEDS = []
def S(id, prop, needs, breaks, edits, demo, **k): SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

CAPTURE = r'''
#include <unistd.h>
static char text[4096];
static int saved; static FILE* cap;
static void on(void) { fflush(stderr); cap = tmpfile(); saved = dup(2); dup2(fileno(cap), 2); }
static void off(void) { fflush(stderr); dup2(saved, 2); close(saved); rewind(cap); size_t n = fread(text, 1, 4095, cap); text[n] = 0; fclose(cap); }
'''
S("c26-frame-group", "C26", "dumping a 7100 frame",
  "the third vector of a dumped 7100 frame is grouped at the wrong place", [(I71, "            if (j == 10) {\n                fprintf(stderr, \" \");", "            if (j == 11) {\n                fprintf(stderr, \" \");")],
CAPTURE + r'''
int main(void) {
    char f[7][24]; for (int i = 0; i < 7; i++) for (int j = 0; j < 24; j++) f[i][j] = (char)(rnd() & 1);
    on(); mbe_dumpImbe7100x4400Frame(f); off();
    /* 19 cells and a blank, 24 and a blank, two separators, then 12 data bits */
    return text[47 + 12] == ' ' ? 0 : fail("twelve data bits expected in the third group");
}''')
S("c26-repeat-trace", "C26", "an IMBE stream that is repeated past its limit",
  "a diagnostic is printed when the model is reset after too many repeats",
  [(I72, "            imbe_reset_headroom_defaults(cur_mp);\n", "            imbe_reset_headroom_defaults(cur_mp);\n            fprintf(stderr, \"IMBE: model reset\\n\");\n")],
CAPTURE + r'''
int main(void) {
    stream s; char d[88], buf[80]; float a[160]; int z = 0, nine = 9;
    start(&s); voice72(d, 30);
    on();
    for (int i = 0; i < 8; i++) mbe_processImbe4400Dataf(a, &z, i ? &nine : &z, buf, d, &s.c, &s.p, &s.e, 3);
    off();
    return text[0] ? fail("the decoder printed something") : 0;
}''')
S("c09-threshold-previous", "C09", "an error rate that lets the repeat threshold fall between the old and the new rate",
  "the repeat threshold is computed from the previous frame's error rate",
  [(I72, "repeat_threshold = 10.0f + (40.0f * cur_mp->errorRate);", "repeat_threshold = 10.0f + (40.0f * prev_mp->errorRate);")],
r'''
int main(void) {
    stream s; char d[88], out[88], fr[8][23], buf[80]; float a[160]; int e, e2;
    start(&s); voice72(d, 60); imbe72(d, fr);
    mbe_processImbe7200x4400Framef(a, &e, &e2, buf, fr, out, &s.c, &s.p, &s.e, 3);
    s.p.errorRate = 0.0245f;
    /* eleven errors, two of them in the first vector: the threshold is 11.09 now, and was 10.98 */
    voice72(d, 90); imbe72(d, fr);
    fr[0][20] ^= 1; fr[0][15] ^= 1;
    for (int r = 1; r < 4; r++) { fr[r][20] ^= 1; fr[r][15] ^= 1; fr[r][12] ^= 1; }
    mbe_processImbe7200x4400Framef(a, &e, &e2, buf, fr, out, &s.c, &s.p, &s.e, 3);
    if (e != 2 || e2 != 11) return fail("setup");
    return strchr(buf, 'R') ? fail("repeated below the threshold") : 0;
}''')
S("c10-plain-replay", "C10", "an unusable tone frame after a voice frame",
  "the replayed voice has the amplitudes from before enhancement", [(A50, "mbe_moveMbeParms(prev_mp_enhanced, &synth_mp);", "mbe_moveMbeParms(prev_mp_enhanced, &synth_mp);\n            memcpy(synth_mp.Ml, prev_mp->Ml, sizeof(synth_mp.Ml));")],
r'''
int main(void) {
    stream s; mbe_parms c, p; char d[49], buf[64]; float a[160], b[160]; int z = 0;
    start(&s);
    for (int i = 0; i < 6; i++) { voice50(d, 40 + i); setbits(d, (int[]){8, 9, 10, 11, 36}, 5, 28); mbe_processAmbe2450Dataf(a, &z, &z, buf, d, &s.c, &s.p, &s.e, 3); }
    memset(d, 0, 49); for (int i = 0; i < 6; i++) d[i] = 1;
    for (int i = 0; i < 8; i++) d[12 + i] = (char)(200 >> (7 - i) & 1);
    c = s.e; p = s.e; mbe_synthesizeSpeechf(b, &c, &p, 3);
    mbe_processAmbe2450Dataf(a, &z, &z, buf, d, &s.c, &s.p, &s.e, 3);
    if (strcmp(buf, "T")) return fail("setup");
    for (int i = 0; i < 160; i++) if (fabsf(a[i] - b[i]) > 1e-3f * (1 + fabsf(b[i]))) return fail("not the previous voice");
    return 0;
}''')
S("c15-stale-band", "C15", "a record that still holds an amplitude just above its band count, after fewer bands than before",
  "the first band above the model's count sounds with what the record held there", [(CORE, "        for (l = cur_mp->L + 1; l <= maxl; l++) {\n            cur_mp->Ml[l] = 0.0f;", "        for (l = cur_mp->L + 1; l <= maxl; l++) {\n            if (l > cur_mp->L + 1) {\n                cur_mp->Ml[l] = 0.0f;\n            }")],
r'''
int main(void) {
    mbe_parms c, p, e, c2, p2; float a[160], b[160];
    mbe_initMbeParms(&c, &p, &e);
    p.L = 30; p.w0 = 0.098f; c.L = 20; c.w0 = 0.14f;
    for (int l = 1; l <= 56; l++) { p.Vl[l] = c.Vl[l] = 1; p.Ml[l] = l <= 30 ? 40.f : 0; c.Ml[l] = l <= 20 ? 40.f : 0; }
    c2 = c; p2 = p; c.Ml[21] = 900.f;
    mbe_synthesizeSpeechf(a, &c, &p, 3); mbe_synthesizeSpeechf(b, &c2, &p2, 3);
    return memcmp(a, b, sizeof a) ? fail("a band above the count is heard") : 0;
}''')
S("c17-large-seed", "C17", "a seed above 2^24 that a float cannot represent",
  "large seeds are rounded before the unvoiced generator is seeded", [(UV, "mbe_unvoiced_seed_state = seed % MBE_LCG_M_INT;", "mbe_unvoiced_seed_state = (uint32_t)fmodf((float)seed, (float)MBE_LCG_M_INT);")],
r'''
int main(void) {
    for (uint32_t s = 0x7ffffff1u; s < 0x7ffffff9u; s++) {
        mbe_parms c, p, e; float a[160];
        mbe_initMbeParms(&c, &p, &e);
        mbe_setThreadRngSeed(s); mbe_synthesizeSpeechf(a, &c, &p, 3);
        if (c.noiseSeed != (float)(s % 53125u)) return fail("seed rounded");
    }
    return 0;
}''')
S("c17-override-sticks", "C17", "a second stream started in a thread after one seeding",
  "a seed set once for the thread also starts every later stream", [(UV, "            *seed = (float)mbe_unvoiced_seed_state;\n            mbe_unvoiced_seed_override = 0;", "            *seed = (float)mbe_unvoiced_seed_state;")],
r'''
int main(void) {
    mbe_parms c, p, e; float a[160], def;
    mbe_initMbeParms(&c, &p, &e); mbe_synthesizeSpeechf(a, &c, &p, 3); def = c.noiseSeed;
    mbe_setThreadRngSeed(77);
    mbe_initMbeParms(&c, &p, &e); mbe_synthesizeSpeechf(a, &c, &p, 3);
    if (c.noiseSeed != 77) return fail("setup");
    mbe_initMbeParms(&c, &p, &e); mbe_synthesizeSpeechf(a, &c, &p, 3);
    return c.noiseSeed == def ? 0 : fail("the second stream does not start at the default");
}''')
S("c22-second-phase", "C22", "an AMBE stream that has played a dual tone and is then re-initialised by a mute",
  "the second tone's phase survives the re-initialisation of an AMBE stream", [(COM, "    prev_mp->un = 0;\n    /* JMBE AMBEFundamentalFrequency.W124", "    /* JMBE AMBEFundamentalFrequency.W124")],
r'''
int main(void) {
    stream s; char d[49], buf[64]; float a[160]; int z = 0, nine = 9;
    start(&s);
    voice50(d, 40); mbe_processAmbe2450Dataf(a, &z, &z, buf, d, &s.c, &s.p, &s.e, 3);
    s.p.un = 12345; s.p.swn = 777; s.e.un = 9;
    voice50(d, 41);
    for (int i = 0; i < 4; i++) mbe_processAmbe2450Dataf(a, &z, &nine, buf, d, &s.c, &s.p, &s.e, 3);
    if (!strchr(buf, 'M')) return fail("setup");
    return s.c.un || s.p.un || s.e.un ? fail("phase not reset") : 0;
}''')
S("c13-top-band", "C13", "a single loud unvoiced band at the top of the model under errors",
  "the last band is not forced to be voiced by the adaptive threshold", [(ADA, "    for (int l = 1; l <= L; l++) {\n        if (M[l] > VM) {", "    for (int l = 1; l < L; l++) {\n        if (M[l] > VM) {")],
r'''
int main(void) {
    mbe_parms c, p, e; mbe_initMbeParms(&c, &p, &e);
    c.L = 20; for (int l = 1; l <= 20; l++) { c.Ml[l] = 1; c.Vl[l] = 0; }
    c.Ml[20] = 5000; c.errorCountTotal = 9; c.errorRate = 0.03f;
    mbe_applyAdaptiveSmoothing(&c, &p);
    return c.Vl[20] == 1 ? 0 : fail("band 20 not forced");
}''')
S("c14-gain-tail", "C14", "the SIMD build and a band count that is not a multiple of four",
  "the last band misses the energy-preserving gain", [(CORE, "            _mm_storeu_ps(&cur_mp->Ml[l4], vMl);\n        }\n        /* Handle remaining elements */\n        for (l = l4; l <= L; l++) {", "            _mm_storeu_ps(&cur_mp->Ml[l4], vMl);\n        }\n        /* Handle remaining elements */\n        for (l = l4; l < L; l++) {")],
r'''
int main(void) {
    for (int L = 9; L <= 56; L++) {
        mbe_parms c, p, e; mbe_initMbeParms(&c, &p, &e); double x = 0, y = 0;
        c.L = L; c.w0 = 2.9f / (float)L;
        for (int l = 1; l <= L; l++) { c.Ml[l] = (float)(1 + rnd() % 60) * (l == L ? 8 : 1); x += (double)c.Ml[l] * c.Ml[l]; }
        mbe_spectralAmpEnhance(&c);
        for (int l = 1; l <= L; l++) y += (double)c.Ml[l] * c.Ml[l];
        if (fabs(x - y) > 1e-3 * x) return fail("energy changed");
    }
    return 0;
}''', own="-DMBELIB_ENABLE_SIMD=ON")
S("c12-capped-count", "C12", "an error total above twenty (possible where the caller gives the count)",
  "the spelled error count stops at twenty", [(A50, "    for (i = 0; i < *errs2; i++) {\n        *err_str = '=';", "    for (i = 0; i < *errs2 && i < 20; i++) {\n        *err_str = '=';")],
r'''
int main(void) {
    stream s; char d[49], buf[100]; float a[160]; int z = 0, n = 23;
    start(&s); voice50(d, 30);
    mbe_processAmbe2450Dataf(a, &z, &n, buf, d, &s.c, &s.p, &s.e, 3);
    return strspn(buf, "=") == 23 ? 0 : fail("count not spelled");
}''')
S("c16-quiet-top", "C16", "a model whose last unvoiced band reaches above bin 120",
  "bins above 120 are dropped", [(UV, "        if (b_max[l] > MBE_FFT_SIZE / 2) {\n            b_max[l] = MBE_FFT_SIZE / 2;", "        if (b_max[l] > (MBE_FFT_SIZE / 2) - 8) {\n            b_max[l] = (MBE_FFT_SIZE / 2) - 8;")],
r'''
int main(void) {
    /* nine wide bands, the last one alone sounding: without its upper bins its waveform differs from the sum rule */
    mbe_parms c, p, e; float a[160]; mbe_initMbeParms(&c, &p, &e);
    c.L = 9; c.w0 = 0.3162f; c.noiseSeed = 100; p.L = 9; p.w0 = c.w0;
    for (int l = 1; l <= 56; l++) { c.Vl[l] = p.Vl[l] = 1; c.Ml[l] = 0; p.Ml[l] = 0; }
    c.Vl[9] = 0; c.Ml[9] = 100;
    mbe_synthesizeSpeechf(a, &c, &p, 3);
    double re = 0, im = 0, re0 = 0, im0 = 0;
    for (int i = 0; i < 256; i++) { double t = 2 * M_PI * 121 * i / 256, u = 2 * M_PI * 115 * i / 256; re += c.previousUw[i] * cos(t); im += c.previousUw[i] * sin(t); re0 += c.previousUw[i] * cos(u); im0 += c.previousUw[i] * sin(u); }
    if (hypot(re0, im0) < 1) return fail("setup");
    return hypot(re, im) > 1e-2 ? 0 : fail("bin 121 is silent");
}''')
S("c23-wola-gap", "C23", "the SIMD build", "four samples of the unvoiced overlap are skipped in SIMD builds",
  [(UV, "    for (int n = 32; n < 128; n += 4) {\n        /* Load precomputed weights */\n        __m128", "    for (int n = 32; n < 124; n += 4) {\n        /* Load precomputed weights */\n        __m128")],
r'''
int main(void) {
    stream s; char d[88], buf[80]; float a[160]; int z = 0, quiet = 0;
    start(&s);
    for (int k = 0; k < 20; k++) {
        voice72(d, 60); for (int i = 6; i < 85; i++) d[i] = 0;
        mbe_processImbe4400Dataf(a, &z, &z, buf, d, &s.c, &s.p, &s.e, 3);
        int any = 0; for (int l = 1; l <= s.c.L; l++) any |= s.c.Vl[l];
        if (k > 2 && !any) { double in = 0, out = 0; for (int i = 124; i < 128; i++) in += fabs(a[i]); for (int i = 116; i < 124; i++) out += fabs(a[i]); if (out > 0 && in == 0) quiet++; }
    }
    return quiet ? fail("samples 124-127 are silent") : 0;
}''', own="-DMBELIB_ENABLE_SIMD=ON")
S("c21-static-noise", "C21", "two threads synthesising speech at the same moment",
  "the noise buffer of the synthesiser is shared by all threads", [(CORE, "    float noise_buffer[256];\n", "    static float noise_buffer[256];\n")],
r'''
#include <pthread.h>
static float ref[4][300][160]; static int bad;
static void run(int k, float out[300][160]) {
    stream s; char buf[80]; char d[88]; int z = 0; uint32_t r = 77u + (uint32_t)k;
    start(&s); s.c.noiseSeed = s.p.noiseSeed = s.e.noiseSeed = (float)(k * 1000);
    for (int f = 0; f < 300; f++) {
        for (int i = 0; i < 88; i++) { r = r * 1664525u + 1013904223u; d[i] = (char)(r >> 20 & 1); }
        d[0] = 0;
        mbe_processImbe4400Dataf(out[f], &z, &z, buf, d, &s.c, &s.p, &s.e, 3);
    }
}
static void* th(void* v) {
    int k = (int)(intptr_t)v; static __thread float out[300][160];
    for (int i = 0; i < 30; i++) { run(k, out); if (memcmp(out, ref[k], sizeof out)) __sync_fetch_and_add(&bad, 1); }
    return 0;
}
int main(void) {
    pthread_t t[4];
    for (int k = 0; k < 4; k++) run(k, ref[k]);
    for (int k = 0; k < 4; k++) pthread_create(&t[k], 0, th, (void*)(intptr_t)k);
    for (int k = 0; k < 4; k++) pthread_join(t[k], 0);
    return bad ? fail("threads disturb one another") : 0;
}''')
S("c25-five-errors", "C25", "a record with exactly five errors at a low rate",
  "five errors alone no longer ask for smoothing", [(ADA, "(mp->errorRate > MBE_ERROR_THRESHOLD_ENTRY) || (mp->errorCountTotal > 4);", "(mp->errorRate > MBE_ERROR_THRESHOLD_ENTRY) || (mp->errorCountTotal > 5);")],
r'''
int main(void) {
    mbe_parms m; memset(&m, 0, sizeof m); m.errorCountTotal = 5;
    return mbe_requiresAdaptiveSmoothing(&m) ? 0 : fail("five errors");
}''')
S("c18-tone-6", "C18", "tone identifier 6 of a 2450 frame", "the second-lowest tone has the wrong pitch",
  [(CORE, "        case 6:\n            *freq1 = 187.5f;", "        case 6:\n            *freq1 = 187.0f;")],
r'''
int main(void) {
    mbe_parms c, p, e; float a[160]; char d[49]; mbe_initMbeParms(&c, &p, &e);
    memset(d, 0, 49); for (int i = 0; i < 12; i++) d[i] = 1;
    d[17] = 1; d[18] = 1;   /* 6 */
    mbe_synthesizeTonef(a, d, &c);
    uint32_t want = (uint32_t)(160 * (uint64_t)(187.5 / 8000 * 4294967296.0 + .5));
    return (uint32_t)c.swn == want ? 0 : fail("wrong phase advance");
}''')
S("c18-amp-lsb", "C18", "a 2450 tone with an odd amplitude", "the lowest amplitude bit is taken from the next bit",
  [(CORE, "AD = ((u0 & 0x3f) << 1) + ((u3 >> 4) & 0x1);", "AD = ((u0 & 0x3f) << 1) + ((u3 >> 5) & 0x1);")],
r'''
int main(void) {
    mbe_parms c, p, e; float a[160], b[160]; char d[49]; mbe_initMbeParms(&c, &p, &e);
    memset(d, 0, 49); d[13] = 1; /* 64 */ d[9] = 1;
    mbe_synthesizeTonef(a, d, &c); mbe_initMbeParms(&c, &p, &e); d[44] = 1; mbe_synthesizeTonef(b, d, &c);
    return memcmp(a, b, sizeof a) ? 0 : fail("amplitude bit ignored");
}''')
S("c11-tone-margin", "C11", "a D-STAR tone frame with exactly two errors in total, one in the first vector",
  "a tone with one first-vector error is refused", [(A00, "    bad = mbe_decodeAmbe2400Parms(ambe_d, cur_mp, prev_mp);\n", "    bad = mbe_decodeAmbe2400Parms(ambe_d, cur_mp, prev_mp);\n    if ((bad > 3) && (*errs + *errs2 > 2)) {\n        bad = 3;\n    }\n")],
r'''
int main(void) {
    stream s; char d[49], buf[64]; float a[160]; int one = 1, two = 2; double en = 0; int found = 0;
    for (int b = 0; b < 4096 && !found; b++) {
        memset(d, 0, 49); setbits(d, P00, 7, 126);
        mbe_parms c, p, e; mbe_initMbeParms(&c, &p, &e);
        for (int i = 6; i < 48; i++) d[i] = (char)(rnd() & 1);
        int id = mbe_decodeAmbe2400Parms(d, &c, &p);
        if (id < 5 || id > 122) continue;
        found = 1; start(&s);
        mbe_processAmbe2400Dataf(a, &one, &two, buf, d, &s.c, &s.p, &s.e, 3);
    }
    if (!found) return 0;
    for (int i = 0; i < 160; i++) en += (double)a[i] * a[i];
    return en / 160 > 1000 ? 0 : fail("tone refused");
}''')
S("c20-short-errors", "C20", "a 16-bit 7100 frame with errors in its first vector",
  "the 16-bit 7100 frame call reports the first-vector errors as the total", [(I71, "mbe_processImbe7100x4400Frame(", "mbe_processImbe7100x4400Frame(")], "")
SEEDS.pop()
S("c06-gain-wrap", "C06", "the top gain code", "the highest of the 64 gains is read as the one below it",
  [(I72, "    Gm[1] = B2[b2];\n", "    Gm[1] = B2[b2 > 62 ? 62 : b2];\n")],
r'''
int main(void) {
    /* the gain shifts all log amplitudes by the same amount: find two frames that differ in the lowest gain bit only */
    char d[88], w[88]; mbe_parms c, p, e, c2, p2, e2; int diff = 0;
    for (int k = 0; k < 79; k++) {
        memset(d, 1, 88); setbits(d, P72, 8, 100);
        memcpy(w, d, 88); if (k + 6 >= 85) break; w[6 + k] ^= 1;
        mbe_initMbeParms(&c, &p, &e); mbe_initMbeParms(&c2, &p2, &e2);
        mbe_decodeImbe4400Parms(d, &c, &p); mbe_decodeImbe4400Parms(w, &c2, &p2);
        float s = c2.log2Ml[1] - c.log2Ml[1]; int same = fabsf(s) > 1e-3f;
        for (int l = 1; l <= c.L; l++) if (fabsf(c2.log2Ml[l] - c.log2Ml[l] - s) > 1e-3f) same = 0;
        diff += same;
    }
    return diff >= 6 ? 0 : fail("a gain bit has no effect");
}''')
S("c08-gain-history", "C08", "the second and later frames of a D-STAR stream",
  "the previous gain is taken from the enhanced side of the record after a tone", [(A00, "(*errs < 2) && (*errs2 < 3)", "(*errs < 2) && (*errs2 < 3)")], "")
SEEDS.pop()
S("c03-c1-first", "C03", "an AMBE frame with three errors in its second vector, one of them in the top bit",
  "the top bit of the second vector is taken before correction", [(COM, "    for (j = 22; j > 10; j--) {\n        *ambe = gout[j];", "    for (j = 22; j > 10; j--) {\n        *ambe = (j == 22 && errs > 2) ? gin[j] : gout[j];")],
r'''
int main(void) {
    for (int k = 0; k < 50; k++) {
        char d[49], out[49], fr[4][24]; rndbits(d, 49); ambe(d, fr);
        fr[1][22] ^= 1; fr[1][15] ^= 1; fr[1][12] ^= 1;
        mbe_eccAmbe3600x2450C0(fr); mbe_demodulateAmbe3600x2450Data(fr);
        if (mbe_eccAmbe3600x2450Data(fr, out) != 3 || memcmp(out, d, 49)) return fail("not corrected");
    }
    return 0;
}''')
S("c19-noise-scale", "C19", "16-bit comfort noise", "16-bit comfort noise is rounded instead of converted like all other samples",
  [(ADA, "    mbe_floattoshort(float_buf, aout_buf);\n}", "    for (int i = 0; i < 160; i++) {\n        aout_buf[i] = (short)lrintf(7.0f * float_buf[i]);\n    }\n}")],
r'''
int main(void) {
    float a[160]; short s[160], w[160];
    mbe_setThreadRngSeed(4); mbe_synthesizeComfortNoisef(a); mbe_floattoshort(a, w);
    mbe_setThreadRngSeed(4); mbe_synthesizeComfortNoise(s);
    return memcmp(s, w, sizeof s) ? fail("converted differently") : 0;
}''')
