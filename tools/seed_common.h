/* Helpers of the demonstrations: air frames that carry given parameter bits. */
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mbelib-neo/mbelib.h"
static uint32_t rnd_s = 12345u;
static inline uint32_t rnd(void) { rnd_s = rnd_s * 1664525u + 1013904223u; return rnd_s >> 8; }
static inline uint32_t golay(uint32_t d) {
    uint32_t w = d << 11;
    for (int t = 22; t > 10; t--) if (w >> t & 1) w ^= 3189u << (t - 11);
    return d << 11 | w;
}
static inline uint32_t ham(const int* g, uint32_t d) {
    for (uint32_t p = 0; p < 16; p++) {
        uint32_t w = d << 4 | p; int ok = 1;
        for (int i = 0; i < 4; i++) ok &= !(__builtin_popcount(w & (uint32_t)g[i]) & 1);
        if (ok) return w;
    }
    return 0;
}
static inline uint32_t take(const char** b, int n) { uint32_t v = 0; while (n--) v = v << 1 | (uint32_t)*(*b)++; return v; }
static inline void put(char* row, uint32_t w, int n, int hi) { for (int i = 0; i < n; i++) row[hi - i] = (char)(w >> (n - 1 - i) & 1); }
static inline void imbe72(const char* b, char fr[8][23]) {
    static const int g[4] = {0x7f08, 0x78e4, 0x66d2, 0x55b1};
    memset(fr, 0, 8 * 23);
    for (int r = 0; r < 4; r++) put(fr[r], golay(take(&b, 12)), 23, 22);
    for (int r = 4; r < 7; r++) put(fr[r], ham(g, take(&b, 11)), 15, 14);
    put(fr[7], take(&b, 7), 7, 6);
    mbe_demodulateImbe7200x4400Data(fr);
}
static inline void imbe71(const char* b, char fr[7][24]) {
    static const int g[4] = {0x7ac8, 0x3d64, 0x1eb2, 0x7591};
    memset(fr, 0, 7 * 24);
    put(fr[0], golay(take(&b, 7)) & 0x3ffffu, 18, 18);
    put(fr[1], golay(take(&b, 12)), 23, 23);
    for (int r = 2; r < 4; r++) put(fr[r], golay(take(&b, 12)), 23, 22);
    for (int r = 4; r < 6; r++) put(fr[r], ham(g, take(&b, 11)), 15, 14);
    put(fr[6], take(&b, 23), 23, 22);
    mbe_demodulateImbe7100x4400Data(fr);
}
static inline void ambe(const char* b, char fr[4][24]) {
    memset(fr, 0, 4 * 24);
    put(fr[0], golay(take(&b, 12)), 23, 23);
    int ones = 0; for (int j = 1; j < 24; j++) ones += fr[0][j];
    fr[0][0] = (char)(ones & 1);
    put(fr[1], golay(take(&b, 12)), 23, 22);
    put(fr[2], take(&b, 11), 11, 10);
    put(fr[3], take(&b, 14), 14, 13);
    mbe_demodulateAmbe3600x2450Data(fr);
}
static inline void setbits(char* d, const int* pos, int n, int v) { for (int i = 0; i < n; i++) d[pos[i]] = (char)(v >> (n - 1 - i) & 1); }
static const int P72[8] = {0, 1, 2, 3, 4, 5, 85, 86}, P50[7] = {0, 1, 2, 3, 37, 38, 39}, P00[7] = {0, 1, 2, 3, 4, 5, 48};
static inline void rndbits(char* d, int n) { for (int i = 0; i < n; i++) d[i] = (char)(rnd() & 1); }
static inline void voice72(char* d, int b0) { rndbits(d, 88); setbits(d, P72, 8, b0 < 0 ? (int)(rnd() % 208) : b0); }
static inline void voice50(char* d, int b0) { rndbits(d, 49); setbits(d, P50, 7, b0 < 0 ? (int)(rnd() % 120) : b0); if (d[0]&d[1]&d[2]&d[3]&d[4]&d[5]) d[4] = 0; }
static inline void voice00(char* d, int b0) { rndbits(d, 49); setbits(d, P00, 7, b0 < 0 ? (int)(rnd() % 118) : b0); }
typedef struct { mbe_parms c, p, e; } stream;
static inline void start(stream* s) { memset(s, 0, sizeof *s); mbe_initMbeParms(&s->c, &s->p, &s->e); }
static inline int fail(const char* m) { printf("DEMO FAILED: %s\n", m); return 1; }
