I72 = "src/imbe/imbe7200x4400.c"; A50 = "src/ambe/ambe3600x2450.c"; A00 = "src/ambe/ambe3600x2400.c"; COM = "src/ambe/ambe_common.c"
ADA = "src/core/mbe_adaptive.c"; CORE = "src/core/mbelib.c"; UV = "src/core/mbe_unvoiced_fft.c"; ECC = "src/ecc/ecc.c"; I71 = "src/imbe/imbe7100x4400.c"
SEEDS = []
def S(id, prop, needs, breaks, edits, demo, **k): SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

OOM = r'''
#include <pthread.h>
#include <stddef.h>
extern void* __libc_malloc(size_t); extern void __libc_free(void*);
static __thread int on, from, to, tried, live;
void* malloc(size_t n) { if (on) { tried++; if (tried >= from && tried <= to) return 0; live++; } return __libc_malloc(n); }
void free(void* p) { if (on && p) live--; __libc_free(p); }
static void synth(float* a, mbe_parms* c, mbe_parms* p, int f, int t) { from = f; to = t; tried = 0; on = 1; mbe_synthesizeSpeechf(a, c, p, 3); on = 0; }
static void model(mbe_parms* p, int seed, float m) {
    stream s; rnd_s = (uint32_t)seed; start(&s); *p = s.c; p->noiseSeed = 3147.0f;
    for (int l = 1; l <= p->L; l++) { p->Ml[l] = m * (1 + l % 3); p->Vl[l] = l % 2; }
}
static void* body(void*);
int main(void) { pthread_t t; void* r; pthread_create(&t, 0, body, 0); pthread_join(t, &r); return r ? 1 : 0; }
#define FAIL(m) return fail(m), (void*)1
'''
S("c27-setup-leak", "C27", "the third buffer's allocation refused, once the transform tables exist",
  "the transform tables are leaked when a later buffer cannot be had", [(UV, "        if (plan->setup) {\n            pffft_destroy_setup", "        if (plan->setup && plan->Uw_out) {\n            pffft_destroy_setup")],
OOM + r'''
static void* body(void* x) {
    float a[160]; mbe_parms c, p; mbe_setThreadRngSeed(1);
    for (int i = 0; i < 3; i++) { model(&c, 1, 300); model(&p, 2, 300); synth(a, &c, &p, 6, 6); }
    if (live != 0) FAIL("memory kept by refused attempts");
    return 0;
}''')
S("c27-give-up", "C27", "three refused attempts on one thread, then enough memory",
  "after three refusals a thread never gets its unvoiced sound back", [(CORE, "    mbe_fft_plan_instance = mbe_fft_plan_alloc();\n", "    static MBE_THREAD_LOCAL int attempts = 0;\n    if (attempts >= 3) {\n        return NULL;\n    }\n    attempts++;\n    mbe_fft_plan_instance = mbe_fft_plan_alloc();\n")],
OOM + r'''
static void* body(void* x) {
    float a[160], b[160]; mbe_parms c, p; mbe_setThreadRngSeed(1);
    for (int i = 0; i < 4; i++) { model(&c, 1, 300); model(&p, 2, 300); synth(b, &c, &p, 1, 1000); }
    model(&c, 1, 300); model(&p, 2, 300); synth(a, &c, &p, 0, 0);
    return memcmp(a, b, sizeof a) ? 0 : (fail("no unvoiced sound although memory is there"), (void*)1);
}''')
S("c27-silent", "C27", "a refused allocation on a thread's first frame",
  "the whole frame is silenced when the unvoiced part cannot be made", [(CORE, "plan, noise_buffer);\n    }\n", "plan, noise_buffer);\n    } else {\n        mbe_synthesizeSilencef(aout_buf);\n    }\n")],
OOM + r'''
static void* body(void* x) {
    float a[160], e = 0; mbe_parms c, p; mbe_setThreadRngSeed(1);
    model(&c, 1, 300); model(&p, 2, 300); synth(a, &c, &p, 1, 1);
    for (int i = 0; i < 160; i++) e += a[i] * a[i];
    return e > 1 ? 0 : (fail("the voiced bands are silent"), (void*)1);
}''')
S("c27-unclipped", "C27", "a refused allocation during a very loud frame",
  "the frame is returned without limiting when the unvoiced part cannot be made", [(CORE, "    mbe_fft_plan* plan = mbe_get_fft_plan();\n    if (plan) {", "    mbe_fft_plan* plan = mbe_get_fft_plan();\n    if (!plan) {\n        return;\n    }\n    {")],
OOM + r'''
static void* body(void* x) {
    float a[160]; mbe_parms c, p; mbe_setThreadRngSeed(1);
    model(&c, 1, 9000); model(&p, 2, 9000); synth(a, &c, &p, 1, 1);
    for (int i = 0; i < 160; i++) if (fabsf(a[i]) > 4450) FAIL("a sample above the soft-clip level");
    return 0;
}''')
S("c04-zero-seed", "C04", "an AMBE frame whose first twelve bits are all zero", "a zero seed switches descrambling off",
  [(COM, "    pr[0] = (unsigned short)(16 * foo);\n", "    if (foo == 0) {\n        return;\n    }\n    pr[0] = (unsigned short)(16 * foo);\n")],
r'''
int main(void) {
    char f[4][24]; memset(f, 0, sizeof f);
    mbe_demodulateAmbe3600x2400Data(f);
    /* 0 -> 13849 -> 22982 ...: the first set bit of the sequence flips a cell */
    int n = 0; for (int j = 0; j < 23; j++) n += f[1][j];
    return n ? 0 : fail("nothing was flipped for seed zero");
}''')
S("c03-saturate", "C03", "a 7200 frame with more than thirteen correctable errors outside its first vector",
  "the count of the protected vectors saturates", [(I72, "        *imbe = imbe_fr[7][j];\n        imbe++;\n    }\n\n    return (errs);", "        *imbe = imbe_fr[7][j];\n        imbe++;\n    }\n\n    return (errs > 11 ? 11 : errs);")],
r'''
int main(void) {
    char d[88], o[88], f[8][23];
    voice72(d, 50); imbe72(d, f);
    mbe_demodulateImbe7200x4400Data(f);
    for (int r = 1; r < 4; r++) for (int k = 0; k < 3; k++) f[r][12 + 3 * k] ^= 1;
    for (int r = 4; r < 7; r++) f[r][7] ^= 1;
    return mbe_eccImbe7200x4400Data(f, o) == 12 && !memcmp(d, o, 88) ? 0 : fail("twelve corrections expected");
}''')
S("c13-low-energy", "C13", "a previous record whose stored energy is below the minimum but positive",
  "only a non-positive stored energy is replaced by the default", [(ADA, "    if (prevEnergy < MBE_MIN_LOCAL_ENERGY) {", "    if (prevEnergy <= 0.0f) {")],
r'''
int main(void) {
    stream s; start(&s);
    s.p.localEnergy = 5000.0f;
    for (int l = 1; l <= s.c.L; l++) s.c.Ml[l] = 10.0f;
    mbe_applyAdaptiveSmoothing(&s.c, &s.p);
    return s.c.localEnergy > 50000.0f ? 0 : fail("an energy below the minimum was carried on");
}''')
S("c18-phase-sign", "C18", "a tone whose phase passes half the counter's range", "the stored phase loses its top bit",
  [(CORE, "    cur_mp->swn = (int)phase1;", "    cur_mp->swn = (int)(phase1 & 0x7fffffffu);")],
r'''
int main(void) {
    stream s; float a[160], b[160]; char d[49] = {0};
    start(&s); for (int i = 0; i < 12; i++) d[i] = 1;
    for (int i = 0; i < 8; i++) d[12 + i] = (char)(41 >> (7 - i) & 1);
    double f = 31.25 * 41;
    for (int k = 0; k < 40; k++) {
        memcpy(b, a, sizeof a); mbe_synthesizeTonef(a, d, &s.c);
        /* a sinusoid obeys x[n+1] = 2 cos(w) x[n] - x[n-1] across the boundary */
        if (k && fabs(a[0] - (2 * cos(2 * M_PI * f / 8000) * b[159] - b[158])) > 5) return fail("a phase jump between two frames of a tone");
    }
    return 0;
}''')
S("c17-sign-extend", "C17", "a seed of 2^31 or above", "large seeds are sign-extended into the comfort noise state",
  [(ADA, "    mbe_comfort_noise_seed48 = (((uint64_t)seed) ^ MBE_JAVA_RNG_MULT)", "    mbe_comfort_noise_seed48 = (((uint64_t)(int32_t)seed) ^ MBE_JAVA_RNG_MULT)")],
r'''
int main(void) {
    float a[160]; uint32_t seed = 0x90000001u;
    mbe_setThreadRngSeed(seed); mbe_synthesizeComfortNoisef(a);
    uint64_t x = ((uint64_t)seed ^ 0x5DEECE66DULL) & ((1ULL << 48) - 1);
    for (int i = 0; i < 160; i++) {
        x = (x * 0x5DEECE66DULL + 0xB) & ((1ULL << 48) - 1);
        float u = (float)(uint32_t)(x >> 24) / 16777216.0f * 2.0f - 1.0f;
        if (fabsf(a[i] - u * (0.003f * 32767.0f / 7.0f)) > 1e-4f) return fail("not the generator's sequence");
    }
    return 0;
}''')
S("c21-static-bits", "C21", "two threads decoding IMBE frames at the same moment", "the unpacked parameter bits are shared by all threads",
  [(I72, "    char bb[58][12];", "    static char bb[58][12];")],
r'''
#include <pthread.h>
static char d[2][64][88]; static float ref[2][64][57]; static volatile int bad;
static void* run(void* v) {
    int k = (int)(long)v; 
    for (int r = 0; r < 4000 && !bad; r++) for (int i = 0; i < 64; i++) {
        stream s; start(&s); mbe_decodeImbe4400Parms(d[k][i], &s.c, &s.p);
        if (memcmp(ref[k][i] + 1, s.c.Ml + 1, sizeof(float) * (size_t)s.c.L)) bad = 1;
    }
    return 0;
}
int main(void) {
    pthread_t t[2];
    for (int k = 0; k < 2; k++) for (int i = 0; i < 64; i++) {
        stream s; start(&s); voice72(d[k][i], (int)(rnd() % 208)); mbe_decodeImbe4400Parms(d[k][i], &s.c, &s.p); memcpy(ref[k][i], s.c.Ml, sizeof s.c.Ml);
    }
    for (long k = 0; k < 2; k++) pthread_create(&t[k], 0, run, (void*)k);
    for (int k = 0; k < 2; k++) pthread_join(t[k], 0);
    return bad ? fail("another thread's frame leaked into this one") : 0;
}''')
S("c26-long-warning", "C26", "a parameter-level call with an error count above one hundred", "a warning is printed for large error counts",
  [(I72, "    bad = mbe_decodeImbe4400Parms(imbe_d, cur_mp, prev_mp);\n", "    if (*errs2 > 100) {\n        fprintf(stderr, \"imbe: implausible error count %d\\n\", *errs2);\n    }\n    bad = mbe_decodeImbe4400Parms(imbe_d, cur_mp, prev_mp);\n")],
r'''
#include <unistd.h>
int main(void) {
    stream s; char d[88], buf[200], text[64] = {0}; float a[160]; int z = 0, many = 150;
    start(&s); voice72(d, 30);
    fflush(stderr); FILE* cap = tmpfile(); int saved = dup(2); dup2(fileno(cap), 2);
    mbe_processImbe4400Dataf(a, &z, &many, buf, d, &s.c, &s.p, &s.e, 3);
    fflush(stderr); dup2(saved, 2); rewind(cap); size_t n = fread(text, 1, 63, cap);
    return n ? fail("the decoder printed something") : 0;
}''')
S("c10-erasure-overlap", "C10", "an erasure after unvoiced speech, then speech again",
  "the unvoiced overlap is not carried across an erasure", [(COM, "    memcpy(mp->previousUw, continuity->previousUw, sizeof(mp->previousUw));\n", "    memset(mp->previousUw, 0, sizeof(mp->previousUw));\n")],
r'''
int main(void) {
    stream s; char d[49], buf[64]; float a[160], keep[256]; int z = 0;
    start(&s);
    for (int i = 0; i < 6; i++) { voice50(d, 40 + i); mbe_processAmbe2450Dataf(a, &z, &z, buf, d, &s.c, &s.p, &s.e, 3); }
    memcpy(keep, s.p.previousUw, sizeof keep);
    voice50(d, 10); setbits(d, P50, 7, 121);
    mbe_processAmbe2450Dataf(a, &z, &z, buf, d, &s.c, &s.p, &s.e, 3);
    if (buf[0] != 'E') return fail("setup");
    return memcmp(keep, s.p.previousUw, sizeof keep) ? fail("the overlap was lost") : 0;
}''')
S("c09-repeat-total", "C09", "a repeated IMBE frame whose error count differs from its predecessor's",
  "a repeated frame takes over the damaged frame's error count", [(I72, "            cur_mp->repeat++;\n            cur_mp->repeatCount++;", "            cur_mp->repeat++;\n            cur_mp->errorCountTotal = *errs2;\n            cur_mp->repeatCount++;")],
r'''
int main(void) {
    stream s; char d[88], buf[80]; float a[160]; int z = 0, one = 1, nine = 9;
    start(&s); voice72(d, 30);
    mbe_processImbe4400Dataf(a, &z, &one, buf, d, &s.c, &s.p, &s.e, 3);
    mbe_processImbe4400Dataf(a, &z, &nine, buf, d, &s.c, &s.p, &s.e, 3);
    return s.p.errorCountTotal == 1 ? 0 : fail("a repeated frame keeps its predecessor's error tracking");
}''')
S("c15-quarter", "C15", "a model whose band count leaves a remainder of three when divided by four",
  "one more low band is kept free of phase jitter", [(CORE, "        if (l <= (cur_mp->L / 4)) {", "        if (l <= ((cur_mp->L + 1) / 4)) {")],
r'''
int main(void) {
    stream s; float a[160]; start(&s);
    s.c.L = 39; s.c.noiseSeed = 3147.0f; for (int i = 0; i < 96; i++) s.c.noiseOverlap[i] = (float)(i * 97 % 53125);
    for (int l = 1; l <= 39; l++) { s.c.Ml[l] = 100; s.c.Vl[l] = l % 2; }
    mbe_synthesizeSpeechf(a, &s.c, &s.p, 3);
    return s.c.PHIl[9] == s.c.PSIl[9] && s.c.PHIl[10] != s.c.PSIl[10] ? 0 : fail("phase jitter starts above a quarter of the bands");
}''')
S("c22-last-band", "C22", "an AMBE restart on a stream that had 56 bands", "the topmost band keeps its old amplitude over a restart",
  [(COM, "    prev_mp->gamma = 0.0f;\n\n    for (int l = 0; l <= 56; l++) {", "    prev_mp->gamma = 0.0f;\n\n    for (int l = 0; l < 56; l++) {")],
r'''
int main(void) {
    stream s; char d[88], buf[80]; float a[160]; int z = 0, many = 9;
    start(&s);
    for (int i = 0; i < 4; i++) { voice72(d, 207); mbe_processImbe4400Dataf(a, &z, &z, buf, d, &s.c, &s.p, &s.e, 3); }
    stream f; start(&f);
    for (int i = 0; i < 49; i++) d[i] = 0;
    voice50(d, 121); setbits(d, P50, 7, 40);
    mbe_processAmbe2450Dataf(a, &z, &many, buf, d, &s.c, &s.p, &s.e, 3);
    mbe_processAmbe2450Dataf(a, &z, &many, buf, d, &f.c, &f.p, &f.e, 3);
    return s.p.Ml[56] == f.p.Ml[56] && s.p.PSIl[56] == f.p.PSIl[56] ? 0 : fail("a leftover of the IMBE stream");
}''')
S("c24-terminate", "C24", "a frame-level AMBE call on a frame that spells a tone",
  "one byte is written behind the parameter bits", [(COM, "    return errs;\n}\n\nvoid\nmbe_initAmbeParms_common", "    if (errs == 3) {\n        *ambe = 0; /* terminated for logging */\n    }\n    return errs;\n}\n\nvoid\nmbe_initAmbeParms_common")],
r'''
int main(void) {
    stream s; char d[49], o[50], f[4][24], buf[64]; float a[160]; int e, e2;
    start(&s); voice50(d, 40); ambe(d, f);
    f[1][20] ^= 1; f[1][15] ^= 1; f[1][12] ^= 1;
    memset(o, 7, 50);
    mbe_processAmbe3600x2450Framef(a, &e, &e2, buf, f, o, &s.c, &s.p, &s.e, 3);
    return o[49] == 7 ? 0 : fail("written behind the 49 parameter bits");
}''')
S("c05-status-bit", "C05", "a 7100 parameter set whose first bit is set", "the status bit is cleared on conversion",
  [(I71, "    tmp_imbe[87] = imbe_d[0];      // \"status\"/zero bit", "    tmp_imbe[87] = 0;      // \"status\"/zero bit")],
r'''
int main(void) {
    char d[88]; rndbits(d, 88); d[0] = 1;
    mbe_convertImbe7100to7200(d);
    return d[87] == 1 ? 0 : fail("the bit was lost");
}''')
