/* Helper linked against the library under test: record layout and exhaustive replays of tables that TLC produced
 * from the specification (no expected value is computed here). */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mbelib-neo/mbelib.h"

#define F(n) #n, offsetof(mbe_parms, n), sizeof(((mbe_parms*)0)->n)
const char*
vp_layout(void) {
    static char buf[2048];
    struct { const char* n; size_t o, s; } f[] = {
        {F(w0)}, {F(L)}, {F(K)}, {F(Vl)}, {F(Ml)}, {F(log2Ml)}, {F(PHIl)}, {F(PSIl)}, {F(gamma)}, {F(un)}, {F(repeat)},
        {F(swn)}, {F(localEnergy)}, {F(amplitudeThreshold)}, {F(errorRate)}, {F(errorCountTotal)}, {F(errorCount4)},
        {F(repeatCount)}, {F(mutingThreshold)}, {F(previousUw)}, {F(noiseSeed)}, {F(noiseOverlap)},
    };
    size_t p = (size_t)snprintf(buf, sizeof buf, "%zu", sizeof(mbe_parms));
    for (size_t i = 0; i < sizeof f / sizeof f[0]; i++)
        p += (size_t)snprintf(buf + p, sizeof buf - p, ";%s:%zu:%zu", f[i].n, f[i].o, f[i].s);
    return buf;
}

static void
unpack(uint32_t w, int n, char* b) {
    for (int i = 0; i < n; i++) b[i] = (char)((w >> i) & 1u);
}

static uint32_t
lcg(uint32_t* x) {
    return *x = *x * 1664525u + 1013904223u;
}

/* Golay: enc[4096] = codeword of each data word, err[nerr] = every correctable error pattern (both from the
 * specification).  Every (data, error) pair is decoded through both entry points, then words next to one another
 * in sequence (`hist` words, each alternating with its 23 neighbours).
 * Returns the number of disagreements; the first is stored in bad[0..3] = {data, error, got, gotcount}. */
static long
golay_one(uint32_t d, uint32_t code, uint32_t err, int upper, uint32_t* x, long before, int32_t* bad) {
    uint32_t w = code ^ err;
    int want = __builtin_popcount(err >> 11);
    char in[25], save[25], out[25];
    memset(in, 0x55, sizeof in);
    memset(out, 0x5a, sizeof out);
    unpack(w, 23, in + 1);
    memcpy(save, in, sizeof in);
    int c = mbe_golay2312(in + 1, out + 1);
    uint32_t got = 0;
    int clean = out[0] == 0x5a && out[24] == 0x5a && memcmp(save, in, sizeof in) == 0;
    for (int i = 22; i >= 11; i--) {
        got = (got << 1) | (uint32_t)(out[i + 1] & 1);
        clean &= (out[i + 1] == 0 || out[i + 1] == 1);
    }
    /* parity positions: delivered as received or as corrected, nothing else */
    for (int i = 10; i >= 0; i--)
        clean &= (out[i + 1] == in[i + 1] || out[i + 1] == (char)((code >> i) & 1u));
    long blk = (long)w;
    if (upper == 1) blk |= (long)(lcg(x) & 0x7f800000u);
    if (upper == 2) blk |= (long)((uint64_t)(lcg(x) | 0x1000000u) << 23);
    mbe_checkGolayBlock(&blk);
    if (got == d && c == want && clean && blk == (long)d) return 0;
    if (!before) {
        bad[0] = (int32_t)d; bad[1] = (int32_t)err; bad[2] = (int32_t)got; bad[3] = c;
        bad[4] = (int32_t)blk; bad[5] = clean; bad[6] = want;
    }
    return 1;
}

long
vp_golay(const uint32_t* enc, const uint32_t* err, int nerr, int upper, int hist, uint32_t rnd, int32_t* bad, long* cases) {
    long nbad = 0;
    uint32_t x = 0x9e3779b9u;
    uint16_t* of = malloc(2u << 23);
    for (uint32_t d = 0; d < 4096; d++)
        for (int k = 0; k < nerr; k++) {
            of[enc[d] ^ err[k]] = (uint16_t)d;
            nbad += golay_one(d, enc[d], err[k], upper, &x, nbad, bad);
            (*cases)++;
        }
    for (int h = 0; h < hist; h++) {
        uint32_t w = lcg(&rnd) >> 9;
        for (int k = 0; k < 46; k++) {
            uint32_t v = (k & 1) ? w ^ (1u << (k / 2)) : w, d = of[v];
            nbad += golay_one(d, enc[d], v ^ enc[d], upper, &x, nbad, bad);
            (*cases)++;
        }
    }
    free(of);
    return nbad;
}

/* Hamming: word -> expected word for all 2^15 words, from the specification; then every word between its neighbours. */
static long
hamming_one(int which, uint32_t w, uint32_t want, long before, int32_t* bad) {
    char in[17], save[17], out[17];
    memset(in, 0x55, sizeof in);
    memset(out, 0x5a, sizeof out);
    unpack(w, 15, in + 1);
    memcpy(save, in, sizeof in);
    int c = which ? mbe_7100x4400hamming1511(in + 1, out + 1) : mbe_hamming1511(in + 1, out + 1);
    uint32_t got = 0;
    int clean = out[0] == 0x5a && out[16] == 0x5a && memcmp(save, in, sizeof in) == 0;
    for (int i = 14; i >= 0; i--) {
        got = (got << 1) | (uint32_t)(out[i + 1] & 1);
        clean &= (out[i + 1] == 0 || out[i + 1] == 1);
    }
    if (got == want && c == (want != w) && clean) return 0;
    if (!before) { bad[0] = (int32_t)w; bad[1] = (int32_t)want; bad[2] = (int32_t)got; bad[3] = c; bad[4] = clean; }
    return 1;
}

long
vp_hamming(const uint32_t* std, const uint32_t* alt, int which, int32_t* bad, long* cases) {
    long nbad = 0;
    const uint32_t* dec = which ? alt : std;
    for (uint32_t w = 0; w < 32768; w++) { nbad += hamming_one(which, w, dec[w], nbad, bad); (*cases)++; }
    for (uint32_t w = 0; w < 32768; w++)
        for (int k = 0; k < 15; k++) {
            uint32_t v = w ^ (1u << k);
            nbad += hamming_one(which, w, dec[w], nbad, bad);
            if (k == 7) nbad += hamming_one(!which, w, (which ? std : alt)[w], nbad, bad);
            nbad += hamming_one(which, v, dec[v], nbad, bad);
            *cases += 2;
        }
    return nbad;
}

/* Descrambling.  codec 0 = IMBE 7200 (8x23), 1 = IMBE 7100 (7x24), 2 = AMBE 2450, 3 = AMBE 2400 (4x24).
 * mask[seed*cells + cell] = whether the specification flips that cell for that seed; hi = column of the most
 * significant seed bit in row 0, sb = number of seed bits.  For each seed `reps` random contents are tried;
 * applying twice must restore the frame. Then every seed between the seeds one bit away and, in vp_scramble_mix,
 * between the other formats' frames. */
typedef struct { const unsigned char* mask; int cells, hi, sb; } scr;

static long
scr_one(int codec, scr c, uint32_t s, uint32_t* rnd, long before, int32_t* bad, long* cases) {
    long nbad = 0;
    char fr[3][8 * 24 + 16];
    memset(fr, 0x33, sizeof fr);
    for (int i = 0; i < c.cells; i++) fr[0][8 + i] = (char)((lcg(rnd) >> 29) & 1u);
    for (int i = 0; i < c.sb; i++) fr[0][8 + c.hi - i] = (char)((s >> (c.sb - 1 - i)) & 1u);
    for (int pass = 0; pass < 2; pass++) {
        memcpy(fr[pass + 1], fr[pass], sizeof fr[0]);
        void* q = fr[pass + 1] + 8;
        switch (codec) {
            case 0: mbe_demodulateImbe7200x4400Data(q); break;
            case 1: mbe_demodulateImbe7100x4400Data(q); break;
            case 2: mbe_demodulateAmbe3600x2450Data(q); break;
            default: mbe_demodulateAmbe3600x2400Data(q); break;
        }
        (*cases)++;
        int at = -1;
        for (int i = 0; i < (int)sizeof fr[0] && at < 0; i++) {
            int in = i >= 8 && i < 8 + c.cells;
            char want = (char)(fr[pass][i] ^ (in ? (char)c.mask[(size_t)s * (size_t)c.cells + (size_t)(i - 8)] : 0));
            if (fr[pass + 1][i] != want) at = i - 8;
        }
        if (at != -1) {
            if (!before && !nbad) { bad[0] = (int32_t)s; bad[1] = at; bad[2] = pass; bad[3] = codec; }
            nbad++;
        }
    }
    if (memcmp(fr[0], fr[2], sizeof fr[0]) != 0) {
        if (!before && !nbad) { bad[0] = (int32_t)s; bad[1] = -9; bad[2] = 2; bad[3] = codec; }
        nbad++;
    }
    return nbad;
}

long
vp_scramble(int codec, const unsigned char* mask, int cells, int hi, int sb, int reps, uint32_t rnd, int32_t* bad, long* cases) {
    long nbad = 0;
    scr c = {mask, cells, hi, sb};
    for (uint32_t s = 0; s < (1u << sb); s++)
        for (int r = 0; r < reps; r++) nbad += scr_one(codec, c, s, &rnd, nbad, bad, cases);
    for (uint32_t s = 0; s < (1u << sb); s++)
        for (int k = 0; k < sb; k++) {
            nbad += scr_one(codec, c, s, &rnd, nbad, bad, cases);
            nbad += scr_one(codec, c, s ^ (1u << k), &rnd, nbad, bad, cases);
        }
    return nbad;
}

long
vp_scramble_mix(const unsigned char* const* mask, const int* geo, uint32_t rnd, int32_t* bad, long* cases) {
    long nbad = 0;
    for (uint32_t s = 0; s < 4096; s++)
        for (int k = 0; k < 16; k++) {
            int q = (k & 1) ? k / 2 % 4 : (k / 2 + 1 + k / 8) % 4;
            scr c = {mask[q], geo[3 * q], geo[3 * q + 1], geo[3 * q + 2]};
            /* the same leading bits, and the same trailing ones, in every format */
            uint32_t v = (k < 8) ? s >> (12 - c.sb) : s & ((1u << c.sb) - 1);
            nbad += scr_one(q, c, v, &rnd, nbad, bad, cases);
        }
    return nbad;
}

/* 7100 -> 7200 rearrangement. map[256*88]: source position of every destination, from the specification.
 * Every pitch value with every unit vector and its complement, and `reps` random payloads; then every pitch value
 * between those one bit away, the other bits unchanged. */
static long
convert_one(const unsigned char* map, int b0, const char* pay, int r, long before, int32_t* bad) {
    static const int pitch[8] = {1, 2, 3, 4, 5, 6, 86, 87};
    char buf[88 + 16], in[88];
    memcpy(in, pay, 88);
    for (int i = 0; i < 8; i++) in[pitch[i]] = (char)((b0 >> (7 - i)) & 1);
    memset(buf, 0x44, sizeof buf);
    memcpy(buf + 8, in, 88);
    mbe_convertImbe7100to7200(buf + 8);
    int at = -1;
    for (int i = 0; i < 88 && at < 0; i++) if (buf[8 + i] != in[map[b0 * 88 + i]]) at = i;
    for (int i = 0; i < 8 && at < 0; i++) if (buf[i] != 0x44 || buf[96 + i] != 0x44) at = 1000 + i;
    if (at < 0) return 0;
    if (!before) { bad[0] = b0; bad[1] = at; bad[2] = r; }
    return 1;
}

long
vp_convert(const unsigned char* map, int reps, uint32_t rnd, int32_t* bad, long* cases) {
    long nbad = 0;
    char in[88];
    for (int b0 = 0; b0 < 256; b0++)
        for (int r = 0; r < 176 + reps; r++) {
            for (int i = 0; i < 88; i++) {
                uint32_t x = lcg(&rnd);
                in[i] = (char)(r < 88 ? r == i : r < 176 ? r - 88 != i : (int)((x >> 28) & 1u));
            }
            nbad += convert_one(map, b0, in, r, nbad, bad);
            (*cases)++;
        }
    for (int b0 = 0; b0 < 256; b0++)
        for (int k = 0; k < 8 * 88; k++) {
            if (k % 11 == 0) for (int i = 0; i < 88; i++) in[i] = (char)((lcg(&rnd) >> 28) & 1u);
            nbad += convert_one(map, b0, in, -1, nbad, bad);
            if (k & 1) in[k / 2 % 88] ^= 1;
            nbad += convert_one(map, (k & 1) ? b0 : b0 ^ (1 << (k / 2 % 8)), in, -1, nbad, bad);
            *cases += 2;
        }
    return nbad;
}

/* Float to 16-bit conversion: bp[n-1] = the smallest magnitude that converts to n, n = 1..nbp, from the specification.
 * Every float whose magnitude's bits are from, from+stride, ... <= to is converted, with either sign (alternating over
 * the frame's positions). A magnitude within 2^-22 of a breakpoint may fall on either side. */
long
vp_pcm(const double* bp, int nbp, uint32_t from, uint32_t to, uint32_t stride, int32_t* bad, long* cases) {
    const double e = 1.0 / 4194304.0;
    long nbad = 0;
    int lo = 0, hi = 0;
    uint64_t u = from;
    while (u <= to) {
        float in[2][160 + 8];
        short out[2][160 + 16];
        uint32_t w[160];
        for (int i = 0; i < 160; i++) {
            w[i] = (uint32_t)(u <= to ? u : to);
            for (int s = 0; s < 2; s++) {
                uint32_t b = w[i] | ((((uint32_t)i ^ (uint32_t)s) & 1u) << 31);
                memcpy(&in[s][i], &b, 4);
            }
            u += stride;
        }
        for (int s = 0; s < 2; s++) {
            memset(out[s], 0x5a, sizeof out[s]);
            mbe_floattoshort(in[s], out[s] + 8);
            for (int i = 0; i < 8; i++)
                if (out[s][i] != 0x5a5a || out[s][168 + i] != 0x5a5a) nbad++;
        }
        for (int i = 0; i < 160; i++) {
            float f;
            memcpy(&f, &w[i], 4);
            double x = f;
            while (lo < nbp && bp[lo] * (1 + e) <= x) lo++;
            while (hi < nbp && bp[hi] * (1 - e) <= x) hi++;
            for (int s = 0; s < 2; s++) {
                int neg = (i ^ s) & 1;
                int got = neg ? -out[s][8 + i] : out[s][8 + i];
                (*cases)++;
                if (got < lo || got > hi) {
                    if (!nbad) { bad[0] = (int32_t)w[i]; bad[1] = neg; bad[2] = neg ? -got : got; bad[3] = lo; bad[4] = i; }
                    nbad++;
                }
            }
        }
    }
    return nbad;
}

const char*
vp_macro_version(void) {
    return MBELIB_VERSION;
}

/* Predicates over every value of one field, the others fixed: thr = the smallest value (as a number's bits, or as an
 * integer) for which the predicate holds, from the specification. what: 0 muting (IMBE threshold), 1 muting (AMBE),
 * 2 smoothing by rate, 3 smoothing by total, 4 repeats. Non-numbers are skipped; denormals too when asked. */
long
vp_pred(int what, uint32_t least, uint32_t from, uint32_t to, uint32_t stride, int denorm, uint32_t thrbits, int32_t* bad, long* cases) {
    long nbad = 0;
    mbe_parms m, save;
    memset(&m, 0, sizeof m);
    for (uint64_t u = from; u <= to; u += stride) {
        uint32_t w = (uint32_t)u;
        int want, got;
        if (what < 3) {
            uint32_t mag = w & 0x7fffffffu;
            if (mag > 0x7f800000u || (!denorm && (mag == 0x7f800000u || (mag && mag < 0x00800000u)))) continue;
            memcpy(&m.errorRate, &w, 4);
            memcpy(&m.mutingThreshold, &thrbits, 4);
            want = !(w >> 31) && w >= least;
        } else {
            if (what == 3) m.errorCountTotal = (int)w;
            else m.repeatCount = (int)w;
            want = (int)w >= (int)least;
        }
        int look = (*cases & 4095) == 0;
        if (look) save = m;
        got = what < 2 ? mbe_requiresMuting(&m) : what < 4 ? mbe_requiresAdaptiveSmoothing(&m) : mbe_isMaxFrameRepeat(&m);
        (*cases)++;
        if ((got != 0) != want || (look && memcmp(&save, &m, sizeof m) != 0)) {
            if (!nbad) { bad[0] = (int32_t)w; bad[1] = got; bad[2] = want; }
            nbad++;
        }
    }
    return nbad;
}

/* The same calls again and again, in an order of no pattern: a call is an entry point, its arguments (addresses and
 * integers) and the regions it may read or write, which get the same contents before every call. Reports, per call, how
 * often it was made and how many of its results (return value and regions) were not the one of its first time, and at
 * which of all the calls that was first seen. seedfn: sets the calling thread's generators before every call, or 0. */
typedef struct { long (*fn)(long, long, long, long, long, long, long, long, long, long); long a[10]; int ret, nreg; char* p[12]; long len[12]; } again;
typedef struct { char* in; char* out; long r, made, off, at; } again_res;
long
vp_again(int n, const again* c, long times, uint32_t rnd, void (*seedfn)(uint32_t), int burst, long* made, long* off, long* at) {
    again_res* x = (again_res*)calloc((size_t)n, sizeof *x);
    long nbad = 0;
    int k = 0, left = 0;
    for (int i = 0; i < n; i++) {
        long t = 0;
        for (int j = 0; j < c[i].nreg; j++) t += c[i].len[j];
        x[i].in = (char*)malloc((size_t)t + 1), x[i].out = (char*)malloc((size_t)t + 1);
        for (long j = 0, o = 0; j < c[i].nreg; o += c[i].len[j], j++) memcpy(x[i].in + o, c[i].p[j], (size_t)c[i].len[j]);
    }
    for (long m = 1; m <= times; m++) {
        if (left-- <= 0) {
            k = (int)((lcg(&rnd) >> 8) % (uint32_t)n);
            left = burst ? (int)((lcg(&rnd) >> 8) % (uint32_t)burst) : 0;
        }
        const again* d = &c[k];
        again_res* y = &x[k];
        long o = 0;
        for (int j = 0; j < d->nreg; o += d->len[j], j++) memcpy(d->p[j], y->in + o, (size_t)d->len[j]);
        if (seedfn) seedfn(1u);
        const long* a = d->a;
        long r = d->fn(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
        r = d->ret ? (long)(int)r : 0;
        int same = 1;
        o = 0;
        if (!y->made++) {
            y->r = r;
            for (int j = 0; j < d->nreg; o += d->len[j], j++) memcpy(y->out + o, d->p[j], (size_t)d->len[j]);
        } else {
            same = y->r == r;
            for (int j = 0; j < d->nreg && same; o += d->len[j], j++) same = !memcmp(y->out + o, d->p[j], (size_t)d->len[j]);
        }
        if (!same && !y->off++) y->at = m;
        if (!same) nbad++;
    }
    for (int i = 0; i < n; i++) {
        made[i] = x[i].made, off[i] = x[i].off, at[i] = x[i].at;
        free(x[i].in), free(x[i].out);
    }
    free(x);
    return nbad;
}
