I72 = "src/imbe/imbe7200x4400.c"; A50 = "src/ambe/ambe3600x2450.c"; A00 = "src/ambe/ambe3600x2400.c"; COM = "src/ambe/ambe_common.c"
ADA = "src/core/mbe_adaptive.c"; CORE = "src/core/mbelib.c"; UV = "src/core/mbe_unvoiced_fft.c"; ECC = "src/ecc/ecc.c"; I71 = "src/imbe/imbe7100x4400.c"
SEEDS = []
def S(id, prop, needs, breaks, edits, demo, **k): SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

S("c01-one-pattern", "C01", "one particular pattern of three data-bit errors",
  "one of the 2048 entries of the correction table is wrong", [("src/ecc/ecc_const.c", "2576, 5, ", "2568, 5, ")],
r'''
int main(void) {
    for (int a = 0; a < 12; a++) for (int b = 0; b < a; b++) for (int c = 0; c < b; c++) {
        uint32_t d = rnd() & 0xfff, w = golay(d) ^ ((1u << a | 1u << b | 1u << c) << 11);
        char in[23], out[23]; uint32_t g = 0;
        for (int i = 0; i < 23; i++) in[i] = (char)(w >> i & 1);
        int e = mbe_golay2312(in, out);
        for (int i = 11; i < 23; i++) g |= (uint32_t)out[i] << (i - 11);
        if (g != d || e != 3) return fail("three errors not corrected");
    }
    return 0;
}''')

S("c04-last-bit", "C04", "the last scrambled bit of a 7100 frame",
  "the last element of the scrambling sequence is not reduced to a bit", [(I71, "    for (i = 1; i < 101; i++) {\n        pr[i] >>= 15;", "    for (i = 1; i < 100; i++) {\n        pr[i] >>= 15;")],
r'''
int main(void) {
    for (int k = 0; k < 200; k++) {
        char f[7][24], g[7][24];
        for (int i = 0; i < 7; i++) for (int j = 0; j < 24; j++) f[i][j] = (char)(rnd() & 1);
        memcpy(g, f, sizeof f);
        mbe_demodulateImbe7100x4400Data(g);
        for (int i = 0; i < 7; i++) for (int j = 0; j < 24; j++) if (g[i][j] & ~1) return fail("not a bit");
    }
    return 0;
}''')

S("c05-band-rounding", "C05", "one of the few pitch values whose band count sits at the rounding step",
  "the conversion derives another voicing-group count than the decoder, so fields move", [(I71, "L = (int)(0.9254 * (int)((M_PI / w0) + 0.25));", "L = (int)(0.9254 * ((M_PI / w0) + 0.25));")],
r'''
int main(void) {
    for (int b0 = 0; b0 < 208; b0++) {
        char d[88], s[88], w[88]; mbe_parms c, p, e;
        rndbits(d, 88);
        for (int i = 0; i < 6; i++) d[1 + i] = (char)(b0 >> (7 - i) & 1);
        d[86] = (char)(b0 >> 1 & 1); d[87] = (char)(b0 & 1);
        memcpy(s, d, 88);
        mbe_convertImbe7100to7200(d);
        mbe_initMbeParms(&c, &p, &e);
        if (mbe_decodeImbe4400Parms(d, &c, &p)) return fail("pitch lost");
        int K = c.K, j = 0, k = 1;
        w[87] = s[0]; w[48 + K] = s[42]; w[49 + K] = s[43];
        for (int i = 0; i < K; i++) w[48 + i] = s[44 + i];
        while (j < 87) { w[j] = s[k]; if (++j == 48) j += K + 2; if (++k == 42) k += K + 2; }
        if (memcmp(w, d, 88)) return fail("fields moved");
    }
    return 0;
}''')

S("c10-tone-164", "C10", "a tone frame with the first identifier past the table",
  "an unusable tone frame is silent instead of replaying the previous voice", [(A50, "(id1 >= 128 && id1 <= 163)", "(id1 >= 128 && id1 <= 164)")],
r'''
int main(void) {
    stream s; char d[49], buf[64]; float a[160]; int z = 0; double en = 0;
    start(&s);
    for (int i = 0; i < 6; i++) { voice50(d, 40 + i); setbits(d, (int[]){8, 9, 10, 11, 36}, 5, 28); mbe_processAmbe2450Dataf(a, &z, &z, buf, d, &s.c, &s.p, &s.e, 3); }
    memset(d, 0, 49); for (int i = 0; i < 6; i++) d[i] = 1;
    for (int i = 0; i < 8; i++) d[12 + i] = (char)(164 >> (7 - i) & 1);
    mbe_processAmbe2450Dataf(a, &z, &z, buf, d, &s.c, &s.p, &s.e, 3);
    if (strcmp(buf, "T")) return fail("setup");
    for (int i = 0; i < 160; i++) en += (double)a[i] * a[i];
    return en > 0 ? 0 : fail("silent");
}''')

S("c11-tone-127", "C11", "a D-STAR tone frame whose last bit is set",
  "only one of the two tone pitch codes is recognised", [(A00, "if ((b0 & 0x7E) == 0x7E) // frame is tone", "if (b0 == 0x7E) // frame is tone")],
r'''
int main(void) {
    char d[49]; mbe_parms c, p, e;
    for (int i = 0; i < 200; i++) {
        rndbits(d, 49); setbits(d, P00, 7, 126);
        mbe_initMbeParms(&c, &p, &e); int a = mbe_decodeAmbe2400Parms(d, &c, &p);
        d[48] = 1; mbe_initMbeParms(&c, &p, &e); int b = mbe_decodeAmbe2400Parms(d, &c, &p);
        if (a != b) return fail("the tone's last bit changed its kind");
    }
    return 0;
}''')

S("c12-muted-repeat", "C12", "an error rate above the muting threshold while a frame is repeated",
  "a repeated frame that is muted for its error rate carries no M mark", [(I72, "int frame_muted = mbe_isMaxFrameRepeat(cur_mp) || mbe_requiresMuting(cur_mp);", "int frame_muted = mbe_isMaxFrameRepeat(cur_mp) || (!repeat_required && mbe_requiresMuting(cur_mp));")],
r'''
int main(void) {
    stream s; char d[88], buf[80]; float a[160], w[160]; int z = 0, nine = 9;
    start(&s);
    voice72(d, 10); mbe_processImbe4400Dataf(a, &z, &z, buf, d, &s.c, &s.p, &s.e, 3);
    s.p.errorRate = 0.12f;
    voice72(d, 150);
    mbe_setThreadRngSeed(5);
    mbe_processImbe4400Dataf(a, &z, &nine, buf, d, &s.c, &s.p, &s.e, 3);
    mbe_setThreadRngSeed(5); mbe_synthesizeComfortNoisef(w);
    if (memcmp(a, w, sizeof a)) return fail("setup: not muted");
    return strcmp(buf, "=========RM") ? fail("muted without a mark") : 0;
}''')

S("c13-second-hamming", "C13", "a 7100 frame with an error in its first Hamming vector only, or in its second only",
  "the smoothing formula is chosen by the second Hamming vector's errors", [(I71, "if (i == 4 && errs_c4 != NULL) {", "if (errs_c4 != NULL) {")],
r'''
int main(void) {
    for (int row = 4; row <= 5; row++) {
        stream s; char d[88], fr[7][24], out[88], buf[64]; float a[160]; int e, e2;
        start(&s);
        rndbits(d, 88); d[1] = 0; d[2] = 0;
        imbe71(d, fr);
        fr[row][9] ^= 1;
        mbe_processImbe7100x4400Framef(a, &e, &e2, buf, fr, out, &s.c, &s.p, &s.e, 3);
        if (e2 != 1) return fail("setup");
        if (s.p.errorCount4 != (row == 4)) return fail("wrong vector's count");
    }
    return 0;
}''')

S("c13-six-errors", "C13", "a frame with exactly six errors at a low error rate",
  "amplitude limiting starts at six errors instead of seven", [(ADA, "errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal <= 6", "errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal < 6")],
r'''
int main(void) {
    stream s; start(&s);
    s.p.amplitudeThreshold = 25000; s.c.errorRate = 0.004f; s.c.errorCountTotal = 6;
    mbe_applyAdaptiveSmoothing(&s.c, &s.p);
    return s.c.amplitudeThreshold == 20480 ? 0 : fail("limit at six errors");
}''')

S("c14-eighth", "C14", "a band count divisible by eight", "the last of the low bands that must keep their amplitude is reweighted",
  [(CORE, "if ((8 * l) <= L) {", "if ((8 * l) < L) {")],
r'''
int main(void) {
    mbe_parms c, p, e; mbe_initMbeParms(&c, &p, &e);
    c.L = 16; c.w0 = 0.17f;
    for (int l = 1; l <= 16; l++) c.Ml[l] = l == 2 ? 1.0f : l == 1 ? 1.0f : 60.0f;
    mbe_spectralAmpEnhance(&c);
    /* bands 1 and 2 carry weight one, so they stay equal */
    return fabsf(c.Ml[1] - c.Ml[2]) < 1e-4f ? 0 : fail("band 2 of 16 was reweighted");
}''')

S("c15-pitch-gate", "C15", "a pitch change of close to one tenth",
  "whether a band is interpolated is judged relative to the previous pitch", [(CORE, "(fabsf(cw0 - pw0) < (0.1f * cw0))", "(fabsf(cw0 - pw0) < (0.1f * pw0))")],
r'''
int main(void) {
    stream s; float a[160]; start(&s);
    s.c.w0 = 0.1050f; s.p.w0 = 0.0950f; s.c.L = s.p.L = 20;     /* 0.0100 < 0.0105 but not < 0.0095 */
    for (int l = 1; l <= 56; l++) { s.c.Vl[l] = s.p.Vl[l] = 1; s.c.Ml[l] = s.p.Ml[l] = 0; }
    s.c.Ml[1] = s.p.Ml[1] = 100.0f;
    mbe_synthesizeSpeechf(a, &s.c, &s.p, 3);
    for (int n = 0; n < 160; n++) {
        double th = 0.0950 * n + 0.0100 * n * n / 320.0, w = 200.0 * cos(th);
        if (fabs(a[n] - w) > 2.0) return fail("not interpolated");
    }
    return 0;
}''')

S("c15-wrap", "C15", "a phase deviation below minus pi",
  "the phase deviation is wrapped toward zero instead of down", [(CORE, "floorf((deltaphil + (float)M_PI) / (2.0f * (float)M_PI))", "truncf((deltaphil + (float)M_PI) / (2.0f * (float)M_PI))")],
r'''
int main(void) {
    stream s; float a[160]; start(&s);
    s.c.w0 = s.p.w0 = 0.1f; s.c.L = s.p.L = 20;
    for (int l = 1; l <= 56; l++) { s.c.Vl[l] = s.p.Vl[l] = 1; s.c.Ml[l] = s.p.Ml[l] = 0; }
    s.c.Ml[1] = s.p.Ml[1] = 100.0f;
    s.p.PSIl[1] = 0.0f; s.p.PHIl[1] = 5.0f;      /* deviation -5 wraps to 2*pi-5 */
    mbe_synthesizeSpeechf(a, &s.c, &s.p, 3);
    double dw = (2 * M_PI - 5.0) / 160.0;
    for (int n = 0; n < 160; n++) if (fabs(a[n] - 200.0 * cos(5.0 + (0.1 + dw) * n)) > 2.0) return fail("phase runs the long way round");
    return 0;
}''')

S("c16-narrow-bands", "C16", "a model of many bands, whose bands are only two spectral lines wide",
  "unvoiced bands of two lines are dropped", [(UV, "if (bin_count > 0 && numerator > 1e-10f) {", "if (bin_count > 2 && numerator > 1e-10f) {")],
r'''
int main(void) {
    for (int band = 3; band <= 50; band++) {
        stream s; float a[160]; double en = 0; start(&s);
        for (int k = 0; k < 4; k++) {
            s.c.w0 = s.p.w0 = 0.0560f; s.c.L = s.p.L = 55;
            for (int l = 1; l <= 56; l++) { s.c.Vl[l] = s.p.Vl[l] = l != band; s.c.Ml[l] = s.p.Ml[l] = l == band ? 50.0f : 0.0f; }
            mbe_synthesizeSpeechf(a, &s.c, &s.p, 3);
            s.p = s.c;
        }
        for (int n = 0; n < 160; n++) en += (double)a[n] * a[n];
        if (en < 1.0) return fail("an unvoiced band is silent");
    }
    return 0;
}''')

S("c17-shared-seed", "C17", "another thread producing comfort noise in between",
  "the comfort-noise state is shared by all threads", [(ADA, "static MBE_THREAD_LOCAL uint64_t mbe_comfort_noise_seed48 = 0;", "static uint64_t mbe_comfort_noise_seed48 = 0;")],
r'''
#include <pthread.h>
static void* other(void* x) { float b[160]; mbe_setThreadRngSeed(77); mbe_synthesizeComfortNoisef(b); return x; }
int main(void) {
    float a[160], b[160], c[160]; pthread_t t;
    mbe_setThreadRngSeed(3); mbe_synthesizeComfortNoisef(a); mbe_synthesizeComfortNoisef(b);
    mbe_setThreadRngSeed(3); mbe_synthesizeComfortNoisef(a);
    pthread_create(&t, 0, other, 0); pthread_join(t, 0);
    mbe_synthesizeComfortNoisef(c);
    return memcmp(b, c, sizeof b) ? fail("another thread moved the noise") : 0;
}''')

S("c18-pair-148", "C18", "tone identifier 148", "one tone pair sounds with a wrong second frequency",
  [(CORE, "        case 148:\n            *freq1 = 1052.0f;\n            *freq2 = 672.0f;", "        case 148:\n            *freq1 = 1052.0f;\n            *freq2 = 674.0f;")],
r'''
int main(void) {
    mbe_parms c, p, e; char d[49]; float a[160]; mbe_initMbeParms(&c, &p, &e);
    memset(d, 0, 49); for (int i = 0; i < 12; i++) d[i] = 1;
    for (int i = 0; i < 8; i++) d[12 + i] = (char)(148 >> (7 - i) & 1);
    double g = 126 / 127.0 * 32767 * 0.95 / 7 / 2;
    for (int k = 0; k < 20; k++) {
        mbe_synthesizeTonef(a, d, &c);
        for (int n = 0; n < 160; n++) {
            double t = (k * 160 + n + 1) / 8000.0;
            if (fabs(a[n] + g * (cos(2 * M_PI * 1052 * t) + cos(2 * M_PI * 672 * t))) > 5.0) return fail("wrong tone");
        }
    }
    return 0;
}''')

S("c19-last-samples", "C19", "loud audio in the last samples of a frame", "the last block of four samples is not limited",
  [(CORE, "    mbe_clipFloatBuffer(aout_buf, N);", "    mbe_clipFloatBuffer(aout_buf, N - 4);")],
r'''
int main(void) {
    stream s; float a[160]; start(&s);
    s.c.w0 = s.p.w0 = 0.1f; s.c.L = s.p.L = 20;
    for (int l = 1; l <= 56; l++) { s.c.Vl[l] = s.p.Vl[l] = 1; s.c.Ml[l] = s.p.Ml[l] = 900.0f; }
    for (int k = 0; k < 50; k++) {
        for (int l = 1; l <= 56; l++) s.c.Ml[l] = 900.0f;
        mbe_synthesizeSpeechf(a, &s.c, &s.p, 3); s.p = s.c;
        for (int n = 0; n < 160; n++) if (fabsf(a[n]) > 32767.0f * 0.95f / 7.0f * 1.00001f) return fail("above the limit");
    }
    return 0;
}''')

S("c20-frame-count", "C20", "a D-STAR tone frame with errors outside its first vector",
  "the frame entry point hands the total count over as the first-vector count", [(A00, "mbe_processAmbe2400Dataf(aout_buf, errs, errs2, err_str, ambe_d, cur_mp, prev_mp, prev_mp_enhanced, uvquality);\n}\n\n/**\n * @brief Process a complete AMBE 3600x2400 frame into 16-bit PCM.", "mbe_processAmbe2400Dataf(aout_buf, errs2, errs2, err_str, ambe_d, cur_mp, prev_mp, prev_mp_enhanced, uvquality);\n}\n\n/**\n * @brief Process a complete AMBE 3600x2400 frame into 16-bit PCM.")],
r'''
int main(void) {
    int n = 0;
    for (int i = 0; i < 300; i++) {
        char d[49], out[49], fr[4][24], f2[4][24], b1[64], b2[64]; float a[160], b[160]; stream s, t; int e, e2;
        rndbits(d, 49); setbits(d, P00, 7, 126);
        ambe(d, fr); fr[1][20] ^= 1; fr[1][13] ^= 1;
        memcpy(f2, fr, sizeof fr);
        start(&s); start(&t);
        mbe_setThreadRngSeed(4); mbe_processAmbe3600x2400Framef(a, &e, &e2, b1, fr, out, &s.c, &s.p, &s.e, 3);
        int c0 = mbe_eccAmbe3600x2400C0(f2); mbe_demodulateAmbe3600x2400Data(f2);
        int c = c0 + mbe_eccAmbe3600x2400Data(f2, out);
        mbe_setThreadRngSeed(4); mbe_processAmbe2400Dataf(b, &c0, &c, b2, out, &t.c, &t.p, &t.e, 3);
        if (c0 != 0 || c != 2) return fail("setup");
        if (strcmp(b1, b2) || memcmp(a, b, sizeof a)) return fail("the frame entry point differs from its parts");
        n++;
    }
    return n ? 0 : 1;
}''')

S("c20-quality-zero", "C20", "a quality argument of zero or less", "the legacy quality argument switches the unvoiced part off",
  [(CORE, "    if (plan) {\n        mbe_synthesizeUnvoicedFFTWithNoise", "    if (plan && uvquality > 0) {\n        mbe_synthesizeUnvoicedFFTWithNoise")],
r'''
int main(void) {
    stream s, t; float a[160], b[160]; start(&s); start(&t);
    for (int k = 0; k < 4; k++) {
        mbe_synthesizeSpeechf(a, &s.c, &s.p, 3); mbe_synthesizeSpeechf(b, &t.c, &t.p, 0);
        s.p = s.c; t.p = t.c;
        if (memcmp(a, b, sizeof a)) return fail("the quality argument changes the audio");
    }
    return 0;
}''')

S("c21-cos-cache", "C21", "two streams on one thread, one with fewer bands at the same pitch",
  "the enhancement's cosine table is kept for an unchanged pitch although it may hold fewer bands", [
  (CORE, "    float cos_tab[57];\n    {\n        const float w0 = cur_mp->w0;", "    static MBE_THREAD_LOCAL float cos_tab[57];\n    static MBE_THREAD_LOCAL float cos_w0 = -1.0f;\n    if (cos_w0 != cur_mp->w0) {\n        const float w0 = cur_mp->w0;\n        cos_w0 = w0;")],
r'''
static void silence(stream* s, int b0, float* a) {
    char d[49], buf[64]; int z = 0;
    memset(d, 0, 49); setbits(d, P50, 7, b0); d[8] = 1; d[12] = d[15] = d[17] = 1; d[25] = d[40] = 1;
    mbe_processAmbe2450Dataf(a, &z, &z, buf, d, &s->c, &s->p, &s->e, 3);
}
int main(void) {
    stream s, t, u; float a[160]; char d[49], buf[64]; int z = 0;
    start(&t); silence(&t, 124, a);                               /* alone */
    start(&u); voice50(d, 90); mbe_processAmbe2450Dataf(a, &z, &z, buf, d, &u.c, &u.p, &u.e, 3);
    start(&u); silence(&u, 125, a);                               /* another stream, 14 bands at that pitch */
    start(&s); silence(&s, 124, a);                               /* 15 bands */
    for (int l = 1; l <= 15; l++) if (s.e.Ml[l] != t.e.Ml[l]) return fail("another stream changed the amplitudes");
    return 0;
}''')

S("c21-shared-plan", "C21", "two threads decoding at the same time", "the FFT work space is shared by all threads",
  [(CORE, "static MBE_THREAD_LOCAL mbe_fft_plan* mbe_fft_plan_instance = NULL;", "static mbe_fft_plan* mbe_fft_plan_instance = NULL;")],
r'''
#include <pthread.h>
static uint32_t run(int seed) {
    stream s; float a[160]; char d[88], buf[64]; int z = 0; uint32_t h = 0, r = (uint32_t)seed * 77u + 1u;
    start(&s);
    for (int k = 0; k < 4000; k++) {
        for (int i = 0; i < 88; i++) { r = r * 1664525u + 1013904223u; d[i] = (char)(r >> 24 & 1); }
        d[0] = 0;
        mbe_processImbe4400Dataf(a, &z, &z, buf, d, &s.c, &s.p, &s.e, 3);
        for (int i = 0; i < 160; i++) { uint32_t w; memcpy(&w, a + i, 4); h = h * 31u + w; }
    }
    return h;
}
static void* go(void* x) { *(uint32_t*)x = run(1); return 0; }
int main(void) {
    uint32_t want = run(1), got[8]; pthread_t t[8];
    for (int k = 0; k < 4; k++) {
        for (int i = 0; i < 8; i++) pthread_create(&t[i], 0, go, &got[i]);
        for (int i = 0; i < 8; i++) pthread_join(t[i], 0);
        for (int i = 0; i < 8; i++) if (got[i] != want) return fail("a concurrent stream disturbed this one");
    }
    return 0;
}''')

S("c22-current-gate", "C22", "an AMBE frame on a stream whose earlier IMBE frames carried errors",
  "a stream is not normalised for the AMBE codec once it has seen errors", [(COM, "if (fabsf(prev_mp->mutingThreshold - MBE_MUTING_THRESHOLD_AMBE) > 1e-6f) {", "if (fabsf(prev_mp->mutingThreshold - MBE_MUTING_THRESHOLD_AMBE) > 1e-6f && prev_mp->errorRate == 0.0f) {")],
r'''
int main(void) {
    stream s; char d[88], buf[64]; float a[160]; int z = 0, three = 3;
    start(&s);
    voice72(d, 20); mbe_processImbe4400Dataf(a, &z, &three, buf, d, &s.c, &s.p, &s.e, 3);
    voice50(d, 30); mbe_processAmbe2450Dataf(a, &z, &z, buf, d, &s.c, &s.p, &s.e, 3);
    return s.p.errorRate == 0.0f && s.p.mutingThreshold == s.e.mutingThreshold && s.p.gamma < 20 ? (s.c.swn == 0 ? 0 : 1) : fail("not normalised");
}''')

S("c23-moment-tail", "C23", "a SIMD build and a band count that is not a multiple of four",
  "the SIMD path leaves the last bands out of the enhancement's spectral moment", [(CORE, """        Rm1 = _mm_cvtss_f32(sums);

        /* Handle remaining elements */
        for (l = l4; l <= L; l++) {
            const float Ml2 = cur_mp->Ml[l] * cur_mp->Ml[l];
            Rm0 += Ml2;
            Rm1 += Ml2 * cos_tab[l];
        }""", """        Rm1 = _mm_cvtss_f32(sums);

        /* Handle remaining elements */
        for (l = l4; l <= L; l++) {
            const float Ml2 = cur_mp->Ml[l] * cur_mp->Ml[l];
            Rm0 += Ml2;
        }""")],
r'''
int main(void) {
    mbe_parms c, p, e; mbe_initMbeParms(&c, &p, &e);
    c.L = 19; c.w0 = 0.15f; float M[57]; double r0 = 0, r1 = 0;
    for (int l = 1; l <= 19; l++) { M[l] = c.Ml[l] = l < 17 ? 10.0f : 40.0f; r0 += (double)M[l] * M[l]; r1 += (double)M[l] * M[l] * cos(0.15 * l); }
    double W[57], q = 0;
    for (int l = 1; l <= 19; l++) {
        W[l] = sqrt(M[l]) * pow(0.96 * M_PI * (r0 * r0 + r1 * r1 - 2 * r0 * r1 * cos(0.15 * l)) / (0.15 * r0 * (r0 * r0 - r1 * r1)), 0.25);
        W[l] = 8 * l <= 19 ? 1 : W[l] > 1.2 ? 1.2 : W[l] < 0.5 ? 0.5 : W[l]; q += W[l] * M[l] * W[l] * M[l];
    }
    mbe_spectralAmpEnhance(&c);
    for (int l = 1; l <= 19; l++) if (fabs(c.Ml[l] - W[l] * M[l] * sqrt(r0 / q)) > 0.01) return fail("weights");
    return 0;
}''', own="-DMBELIB_ENABLE_SIMD=ON")

S("c24-status-tail", "C24", "a status buffer of exactly the documented size", "the end of the status text is cleared beyond what was given",
  [(A50, "    *err_str = 0;\n}", "    for (i = 0; i < 4; i++) {\n        err_str[i] = 0;\n    }\n}")],
r'''
int main(void) {
    stream s; char d[49], buf[16]; float a[160]; int z = 0; start(&s);
    memset(buf, 0x55, sizeof buf);
    voice50(d, 60); mbe_processAmbe2450Dataf(a, &z, &z, buf, d, &s.c, &s.p, &s.e, 3);
    for (int i = 3; i < 16; i++) if (buf[i] != 0x55) return fail("written beyond the status text");
    return 0;
}''')

S("c25-rate-at-threshold", "C25", "an error rate exactly at the smoothing threshold", "smoothing is reported as required at the threshold, not above it",
  [(ADA, "(mp->errorRate > MBE_ERROR_THRESHOLD_ENTRY) || (mp->errorCountTotal > 4)", "(mp->errorRate >= MBE_ERROR_THRESHOLD_ENTRY) || (mp->errorCountTotal > 4)")],
r'''
int main(void) {
    mbe_parms c, p, e; mbe_initMbeParms(&c, &p, &e);
    c.errorRate = 0.0125f;
    if (mbe_requiresAdaptiveSmoothing(&c)) return fail("at the threshold");
    c.errorRate = nextafterf(0.0125f, 1.0f);
    return mbe_requiresAdaptiveSmoothing(&c) ? 0 : fail("above the threshold");
}''')

S("c08-sixth", "C08", "a frame whose last block has six or more bands", "the highest transmitted coefficient of the last block is dropped",
  [(A00, "    for (k = 3; k <= Ji[4]; k++) {\n        if (k > 6) {", "    for (k = 3; k <= Ji[4]; k++) {\n        if (k > 5) {")],
r'''
/* 55 bands, 17 of them in the last block; the DCT coefficient of the last block is read back from the decoded logs */
int main(void) {
    double most = 0;
    for (int h = 0; h < 8; h++) {
        char d[49]; mbe_parms c, p, e;
        memset(d, 0, 49); setbits(d, P00, 7, 117);
        d[35] = (char)(h >> 2 & 1); d[36] = (char)(h >> 1 & 1); d[37] = (char)(h & 1);
        mbe_initMbeParms(&c, &p, &e);
        if (mbe_decodeAmbe2400Parms(d, &c, &p) || c.L != 55) return fail("setup");
        double s = 0; const int n = 17;
        for (int j = 1; j <= n; j++) s += c.log2Ml[c.L - n + j] * cos(M_PI * 5 * (j - 0.5) / n) / n;
        if (fabs(s) > most) most = fabs(s);
    }
    return most > 0.01 ? 0 : fail("sixth coefficient missing");
}''')

S("c22-ambe-partial-clear", "C22", "an AMBE restart on a stream with unvoiced history", "a restart clears only part of the unvoiced history",
  [(COM, "    memset(prev_mp->previousUw, 0, sizeof(prev_mp->previousUw));", "    memset(prev_mp->previousUw, 0, sizeof(prev_mp->noiseOverlap));")],
r'''
int main(void) {
    stream s; char d[49], buf[64]; float a[160]; int z = 0, five = 5; start(&s);
    for (int k = 0; k < 4; k++) { voice50(d, 60); setbits(d, (int[]){8, 9, 10, 11, 36}, 5, 20); mbe_processAmbe2450Dataf(a, &z, &z, buf, d, &s.c, &s.p, &s.e, 3); }
    for (int k = 0; k < 4; k++) mbe_processAmbe2450Dataf(a, &z, &five, buf, d, &s.c, &s.p, &s.e, 3);
    if (!strchr(buf, 'M')) return fail("setup");
    for (int i = 0; i < 256; i++) if (s.e.previousUw[i] != 0.0f) return fail("left-over history");
    return 0;
}''')
