I72 = "src/imbe/imbe7200x4400.c"; A50 = "src/ambe/ambe3600x2450.c"; A00 = "src/ambe/ambe3600x2400.c"; COM = "src/ambe/ambe_common.c"
ADA = "src/core/mbe_adaptive.c"; CORE = "src/core/mbelib.c"; UV = "src/core/mbe_unvoiced_fft.c"; ECC = "src/ecc/ecc.c"; I71 = "src/imbe/imbe7100x4400.c"
SEEDS = []
def S(id, prop, needs, breaks, edits, demo, **k): SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

S("c09-threshold-lags", "C09", "an error rate that has just changed, a first vector with two or more errors and a total on the boundary between the two thresholds",
  "the repeat threshold is derived from the previous frame's error rate", [(I72, "repeat_threshold = 10.0f + (40.0f * cur_mp->errorRate);", "repeat_threshold = 10.0f + (40.0f * prev_mp->errorRate);")],
r'''
/* previous rate 0.0500, 12 errors with 2 in the first vector: threshold 10+40*(0.95*0.05+0.000365*12) = 12.08, no repeat */
int main(void) {
    stream s; char d[88], fr[8][23], buf[64]; float a[160]; int e, e2;
    start(&s);
    voice72(d, 40); imbe72(d, fr);
    s.p.errorRate = 0.05f;
    /* damage: 2 in vector 0, 3 in each of 1..3, 1 in vector 4 = 12 */
    fr[0][22] ^= 1; fr[0][20] ^= 1;
    for (int r = 1; r < 4; r++) { fr[r][22] ^= 1; fr[r][15] ^= 1; fr[r][12] ^= 1; }
    fr[4][14] ^= 1;
    char out[88];
    mbe_processImbe7200x4400Framef(a, &e, &e2, buf, fr, out, &s.c, &s.p, &s.e, 3);
    if (e != 2 || e2 != 12) return fail("setup");
    if (strchr(buf, 'R')) return fail("repeated below the threshold");
    return 0;
}''')

S("c10-erasure-repeat", "C10", "at least two repeated frames, then an erasure, then repeats again",
  "an erasure no longer ends a run of repeats, so muting comes early afterwards", [(A50, "        *err_str = 'E';\n        err_str++;\n        cur_mp->repeat = 0;\n        cur_mp->repeatCount = 0;", "        *err_str = 'E';\n        err_str++;\n        cur_mp->repeat = prev_mp->repeat;\n        cur_mp->repeatCount = 0;")],
r'''
int main(void) {
    stream s; char d[49], buf[64]; float a[160];
    start(&s);
    int e = 0, z = 0, five = 5;
    voice50(d, 60); mbe_processAmbe2450Dataf(a, &e, &z, buf, d, &s.c, &s.p, &s.e, 3);
    for (int i = 0; i < 3; i++) { voice50(d, 60); mbe_processAmbe2450Dataf(a, &e, &five, buf, d, &s.c, &s.p, &s.e, 3); }
    if (strcmp(buf, "=====R")) return fail("setup");
    rndbits(d, 49); setbits(d, P50, 7, 121); mbe_processAmbe2450Dataf(a, &e, &z, buf, d, &s.c, &s.p, &s.e, 3);
    if (strcmp(buf, "E")) return fail("setup erasure");
    for (int i = 0; i < 3; i++) {
        voice50(d, 60); mbe_processAmbe2450Dataf(a, &e, &five, buf, d, &s.c, &s.p, &s.e, 3);
        if (strcmp(buf, "=====R")) return fail("muted too early after an erasure");
    }
    return 0;
}''')

S("c03-count-lsb", "C03", "an error in the least significant data bit of a Golay vector",
  "a corrected error in the last data bit of a Golay codeword is not counted", [(ECC, "    for (i = 22; i >= 11; i--) {\n        if (out[i] != in[i]) {", "    for (i = 22; i > 11; i--) {\n        if (out[i] != in[i]) {")],
r'''
int main(void) {
    char d[88], fr[8][23], out[88];
    voice72(d, 50); imbe72(d, fr);
    fr[2][11] ^= 1;
    int e = mbe_eccImbe7200x4400C0(fr);
    mbe_demodulateImbe7200x4400Data(fr);
    e += mbe_eccImbe7200x4400Data(fr, out);
    if (memcmp(d, out, 88)) return fail("data");
    if (e != 1) return fail("one error, counted otherwise");
    return 0;
}''')

S("c06-rho-24", "C06", "a frame with exactly 24 bands and a previous spectrum that is not flat",
  "at 24 bands the prediction coefficient is 0.7 instead of 0.67", [(I72, "} else if (cur_mp->L <= 24) {", "} else if (cur_mp->L < 24) {")],
r'''
int main(void) {
    for (int b0 = 0; b0 < 208; b0++) {
        char d[88]; mbe_parms c0, p0, c1, p1, e;
        mbe_initMbeParms(&c0, &p0, &e); mbe_initMbeParms(&c1, &p1, &e);
        voice72(d, b0);
        if (mbe_decodeImbe4400Parms(d, &c0, &p0)) continue;
        int L = c0.L;
        mbe_initMbeParms(&c0, &p0, &e);
        p0.L = p1.L = L;
        for (int l = 0; l <= 56; l++) { p0.log2Ml[l] = 0.0f; p1.log2Ml[l] = (float)l; }
        mbe_decodeImbe4400Parms(d, &c0, &p0); mbe_decodeImbe4400Parms(d, &c1, &p1);
        double want = L <= 15 ? 0.4 : L <= 24 ? 0.03 * L - 0.05 : 0.7;
        for (int l = 1; l <= L; l++)
            if (fabs((c1.log2Ml[l] - c0.log2Ml[l]) - want * (l - (L + 1) / 2.0)) > 0.01) return fail("prediction coefficient");
    }
    return 0;
}''')

S("c07-mean-old-bands", "C07", "a frame whose band count differs from its predecessor's and a predecessor spectrum with a non-zero mean",
  "the mean of the predicted spectrum is taken over the previous band count", [(A50, "Sum43 = (((float)0.65 / (float)cur_mp->L) * Sum43);", "Sum43 = (((float)0.65 / (float)prev_mp->L) * Sum43);")],
r'''
int main(void) {
    char d[49];
    for (int i = 0; i < 60; i++) {
        mbe_parms c0, p0, c1, p1, e;
        mbe_initMbeParms(&c0, &p0, &e); mbe_initMbeParms(&c1, &p1, &e);
        p0.L = p1.L = 20;
        for (int l = 0; l <= 56; l++) { p0.log2Ml[l] = 0.0f; p1.log2Ml[l] = 5.0f; }
        voice50(d, i * 2);
        mbe_decodeAmbe2450Parms(d, &c0, &p0); mbe_decodeAmbe2450Parms(d, &c1, &p1);
        /* a constant added to the whole old spectrum must not matter: only its shape is predicted */
        for (int l = 1; l <= c0.L; l++) if (fabsf(c0.log2Ml[l] - c1.log2Ml[l]) > 0.01f) return fail("level of the old spectrum leaks");
    }
    return 0;
}''')
