I72 = "src/imbe/imbe7200x4400.c"; A50 = "src/ambe/ambe3600x2450.c"; A00 = "src/ambe/ambe3600x2400.c"; COM = "src/ambe/ambe_common.c"
ADA = "src/core/mbe_adaptive.c"; CORE = "src/core/mbelib.c"; UV = "src/core/mbe_unvoiced_fft.c"; ECC = "src/ecc/ecc.c"; I71 = "src/imbe/imbe7100x4400.c"
SEEDS = []
def S(id, prop, needs, breaks, edits, demo, **k): SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

STREAMS = r'''
static int e, e2; static char es[256], d[88];
static void air72(stream* s, int b0, float* a) { char f[8][23]; voice72(d, b0); imbe72(d, f); mbe_processImbe7200x4400Framef(a, &e, &e2, es, f, d, &s->c, &s->p, &s->e, 3); }
static void bits72(stream* s, const char* b, float* a) { char f[8][23]; imbe72(b, f); mbe_processImbe7200x4400Framef(a, &e, &e2, es, f, d, &s->c, &s->p, &s->e, 3); }
static void bits50(stream* s, const char* b, float* a) { char f[4][24]; ambe(b, f); mbe_processAmbe3600x2450Framef(a, &e, &e2, es, f, d, &s->c, &s->p, &s->e, 3); }
static void bits00(stream* s, const char* b, float* a) { char f[4][24]; ambe(b, f); mbe_processAmbe3600x2400Framef(a, &e, &e2, es, f, d, &s->c, &s->p, &s->e, 3); }
'''

S("c02-zero-payload", "C02", "a 7100 word whose eleven data cells arrive as zeros", "a word with an all-zero payload is taken as undamaged",
  [(ECC, "    for (i = 0; i < 4; i++) {\n        int stmp = (int)(block & (uint32_t)imbe7100x4400hammingGenerator[i]);", "    if ((block & 0x7ff0u) == 0u) {\n        block = 0u;\n    }\n    for (i = 0; i < 4; i++) {\n        int stmp = (int)(block & (uint32_t)imbe7100x4400hammingGenerator[i]);")],
r"""
int main(void) {
    static const int g[4] = {0x7ac8, 0x3d64, 0x1eb2, 0x7591}; char in[15], out[15];
    for (uint32_t v = 0; v < 2048; v++) for (int k = -1; k < 15; k++) {
        uint32_t w = ham(g, v), r = k < 0 ? w : w ^ 1u << k;
        for (int i = 0; i < 15; i++) in[i] = (char)(r >> i & 1);
        if (mbe_7100x4400hamming1511(in, out) != (k >= 0)) return fail("wrong count");
        for (int i = 0; i < 15; i++) if (out[i] != (char)(w >> i & 1)) return fail("not corrected");
    }
    return 0;
}""")
S("c03-padding-count", "C03", "a 7100 first vector so damaged that it decodes to a codeword outside the shortened code",
  "corrections that fall on the shortened vector's padding are not counted", [(I71, "    errs = mbe_golay2312(in, out);\n    for (j = 0; j < 18; j++) {\n        imbe_fr[0][j + 1] = out[j];\n    }\n", "    errs = mbe_golay2312(in, out);\n    for (j = 0; j < 18; j++) {\n        imbe_fr[0][j + 1] = out[j];\n    }\n    for (j = 18; j < 23; j++) {\n        errs -= out[j];\n    }\n")],
r'''
int main(void) {
    for (int t = 0; t < 20000; t++) {
        char f[7][24], in[23], out[23]; memset(f, 0, sizeof f);
        for (int j = 0; j < 23; j++) in[j] = j < 18 ? (char)(rnd() & 1) : 0;
        for (int j = 0; j < 18; j++) f[0][j + 1] = in[j];
        int n = mbe_golay2312(in, out);
        if (mbe_eccImbe7100x4400C0(f) != n) return fail("first-vector count");
    }
    return 0;
}''')
S("c09-headroom-rate", "C09", "five or more consecutive unusable frames, then a good one", "falling back to the default model also clears the running error rate",
  [(I72, "            imbe_reset_headroom_defaults(cur_mp);", "            imbe_reset_headroom_defaults(cur_mp);\n            cur_mp->errorRate = 0.0f;")],
STREAMS + r'''
int main(void) {
    stream s; start(&s); float a[160], want = 0; char b[88]; int n = 12;
    for (int t = 0; t < 9; t++) { voice72(b, t < 2 ? 50 : 255); mbe_processImbe4400Dataf(a, &n, &n, es, b, &s.c, &s.p, &s.e, 3);
        if (t < 2) { want = s.p.errorRate; } }
    float frozen = s.p.errorRate; (void)frozen;
    return s.p.errorRate > 0 ? 0 : fail("the error rate was forgotten");
}''')
S("c10-erasure-rate", "C10", "a voice frame two or more frames after an erasure with errors", "an erasure frame clears the error rate",
  [(COM, "    mp->localEnergy = MBE_DEFAULT_LOCAL_ENERGY;\n    mp->amplitudeThreshold = MBE_DEFAULT_AMPLITUDE_THRESHOLD;\n\n    mp->noiseSeed = continuity->noiseSeed;", "    mp->localEnergy = MBE_DEFAULT_LOCAL_ENERGY;\n    mp->amplitudeThreshold = MBE_DEFAULT_AMPLITUDE_THRESHOLD;\n    mp->errorRate = 0.0f;\n\n    mp->noiseSeed = continuity->noiseSeed;")],
STREAMS + r'''
int main(void) {
    stream s; start(&s); float a[160]; char b[49]; int z = 3, y = 0;
    for (int t = 0; t < 6; t++) { voice50(b, 40); mbe_processAmbe2450Dataf(a, &z, &z, es, b, &s.c, &s.p, &s.e, 3); }
    float r = s.p.errorRate;
    voice50(b, 121); mbe_processAmbe2450Dataf(a, &y, &y, es, b, &s.c, &s.p, &s.e, 3);
    return fabsf(s.p.errorRate - 0.95f * r) < 1e-6f ? 0 : fail("the error rate did not survive the erasure");
}''')
S("c10-silence-repeat", "C10", "a damaged silence frame", "a silence frame is never repeated, however damaged",
  [(A50, "            repeat_required = ((c0_errors >= 4) || ((c0_errors >= 2) && (*errs2 >= 6)));", "            repeat_required = ((c0_errors >= 4) || ((c0_errors >= 2) && (*errs2 >= 6))) && (cur_mp->w0 < 0.6f);")],
STREAMS + r'''
int main(void) {
    stream s; start(&s); float a[160]; char b[49], f[4][24];
    for (int t = 0; t < 3; t++) { voice50(b, 40); bits50(&s, b, a); }
    voice50(b, 124); ambe(b, f);
    /* three errors in the first vector's data and three in the second's */
    f[0][14] ^= 1; f[0][17] ^= 1; f[0][20] ^= 1; f[1][13] ^= 1; f[1][16] ^= 1; f[1][19] ^= 1;
    mbe_processAmbe3600x2450Framef(a, &e, &e2, es, f, d, &s.c, &s.p, &s.e, 3);
    if (e != 3 || e2 != 6) return fail("set-up");
    return strchr(es, 'R') ? 0 : fail("a damaged silence frame was not repeated");
}''')
S("c15-absent-phase", "C15", "a band that is absent for a frame and comes back", "the phases of bands above both models stand still",
  [(CORE, "    for (l = 1; l <= 56; l++) {\n        /* JMBE parity: wrap", "    for (l = 1; l <= ((maxl < 40) ? 40 : 56); l++) {\n        /* JMBE parity: wrap")],
r'''
int main(void) {
    stream s; float a[160]; rnd_s = 5; start(&s);
    s.c.L = 12; s.c.w0 = 0.21f; s.p.L = 14; s.p.w0 = 0.2f;
    for (int l = 1; l <= 56; l++) { s.p.PSIl[l] = 1.0f; s.c.PSIl[l] = 0; }
    mbe_synthesizeSpeechf(a, &s.c, &s.p, 3);
    for (int l = 41; l <= 56; l++) if (fabsf(s.c.PSIl[l] - (1.0f + 0.41f * (float)l * 80)) > 0.01f) return fail("a phase stood still");
    return 0;
}''')
S("c15-erased-gate", "C15", "the first voice frame after an erasure", "a low band after a model without pitch is interpolated instead of faded",
  [(CORE, "(fabsf(cw0 - pw0) < (0.1f * cw0))", "(fabsf(cw0 - pw0) < (0.1f * cw0) || pw0 == 0.0f)")],
r'''
int main(void) {
    stream s, t; float a[160], b[160]; mbe_setThreadRngSeed(3);
    for (int k = 0; k < 2; k++) {
        stream* x = k ? &t : &s; start(x);
        x->c.L = 20; x->c.w0 = 0.14f; x->p.L = 9; x->p.w0 = k ? 1e-6f : 0.0f; x->c.noiseSeed = 77;
        for (int l = 1; l <= 20; l++) { x->c.Ml[l] = 300; x->c.Vl[l] = 1; x->p.Ml[l] = 200; x->p.Vl[l] = 1; }
        mbe_synthesizeSpeechf(k ? b : a, &x->c, &x->p, 3);
    }
    for (int i = 0; i < 160; i++) if (fabsf(a[i] - b[i]) > 20) return fail("a model without pitch is joined differently from one of nearly none");
    return 0;
}''')
S("c16-quiet-band", "C16", "an unvoiced band of very small amplitude", "unvoiced bands below one sound with amplitude one",
  [(UV, "float scalor = MBE_UNVOICED_SCALE_COEFF * cur_mp->Ml[l] / sqrtf", "float scalor = MBE_UNVOICED_SCALE_COEFF * ((cur_mp->Ml[l] < 1.0f && cur_mp->Ml[l] > 0.0f) ? 1.0f : cur_mp->Ml[l]) / sqrtf")],
r'''
int main(void) {
    stream s; float a[160], x[2] = {0, 0}; mbe_setThreadRngSeed(3);
    for (int k = 0; k < 2; k++) {
        start(&s); s.c.noiseSeed = 500; s.c.L = s.p.L = 20; s.c.w0 = s.p.w0 = 0.14f;
        for (int l = 1; l <= 20; l++) { s.c.Ml[l] = k ? 0.02f : 0.2f; s.c.Vl[l] = 0; s.p.Ml[l] = 0; s.p.Vl[l] = 0; }
        mbe_synthesizeSpeechf(a, &s.c, &s.p, 3);
        for (int i = 0; i < 160; i++) x[k] += a[i] * a[i];
    }
    return x[1] < 0.05f * x[0] ? 0 : fail("a quiet unvoiced band is not quiet");
}''')
S("c16-tail-cut", "C16", "a fully voiced model after an unvoiced one", "the unvoiced tail is dropped when the next model has no unvoiced band",
  [(UV, "    mbe_wola_combine_fast(output, prev_mp->previousUw, Uw_out, plan);\n\n    /* Save", "    for (int l = 1; l <= L; l++) {\n        if (cur_mp->Vl[l] == 0) {\n            mbe_wola_combine_fast(output, prev_mp->previousUw, Uw_out, plan);\n            break;\n        }\n    }\n\n    /* Save")],
r'''
int main(void) {
    stream s; float a[160], x = 0; mbe_setThreadRngSeed(3); start(&s); s.c.noiseSeed = 500;
    s.c.L = s.p.L = 20; s.c.w0 = s.p.w0 = 0.14f;
    for (int l = 1; l <= 20; l++) { s.c.Ml[l] = 0; s.c.Vl[l] = 1; s.p.Ml[l] = 0; s.p.Vl[l] = 1; }
    for (int i = 0; i < 256; i++) s.p.previousUw[i] = 50;
    mbe_synthesizeSpeechf(a, &s.c, &s.p, 3);
    for (int i = 0; i < 160; i++) x += a[i] * a[i];
    return x > 100 ? 0 : fail("the fading tail is missing");
}''')
S("c14-small-bands", "C14", "a band far below the others", "bands below a thousandth are left out of the enhancement",
  [(CORE, "        if (cur_mp->Ml[l] != 0.0f) {\n            const float cos_w0l", "        if (cur_mp->Ml[l] > 1e-3f) {\n            const float cos_w0l")],
r'''
int main(void) {
    stream s; start(&s); s.c.L = 30; s.c.w0 = 0.1f;
    for (int l = 1; l <= 30; l++) s.c.Ml[l] = 100; s.c.Ml[20] = 5e-4f;
    mbe_spectralAmpEnhance(&s.c);
    return fabsf(s.c.Ml[20] / (0.5f * 5e-4f) / (s.c.Ml[29] / 100) - 1) < 0.6f && s.c.Ml[20] < 4e-4f ? 0 : fail("a small band kept its amplitude");
}''')
S("c18-single-second", "C18", "a dual tone, a single tone, then the dual tone again", "a single tone clears the second oscillator's phase",
  [(CORE, "    cur_mp->un = (int)phase2;\n", "    cur_mp->un = dual_tone ? (int)phase2 : 0;\n")],
r'''
int main(void) {
    stream s; start(&s); s.c.un = 12345; float a[160]; char d[49]; memset(d, 0, 49);
    for (int i = 0; i < 12; i++) d[i] = 1;
    for (int i = 0; i < 8; i++) d[12 + i] = (char)(40 >> (7 - i) & 1);
    mbe_synthesizeTonef(a, d, &s.c);
    return s.c.un == 12345 ? 0 : fail("the idle oscillator was disturbed");
}''')
S("c20-stale-hamming", "C20", "a 7100 frame with an error in its first Hamming vector, later a frame without one, both through the frame entry point",
  "the frame entry point keeps an earlier frame's Hamming error", [(I71, "    cur_mp->errorCount4 = errs_c4;", "    cur_mp->errorCount4 |= errs_c4;")],
STREAMS + r'''
int main(void) {
    stream s; start(&s); float a[160]; char b[88], f[7][24];
    for (int t = 0; t < 3; t++) {
        rndbits(b, 88); b[0] = 1; b[1] = 0; b[2] = 0; imbe71(b, f); if (t == 0) f[4][9] ^= 1;
        mbe_processImbe7100x4400Framef(a, &e, &e2, es, f, d, &s.c, &s.p, &s.e, 3);
    }
    return s.p.errorCount4 == 0 ? 0 : fail("a stale Hamming error count");
}''')
S("c22-move-tone", "C22", "copying a record that carries a second tone phase", "copying a record leaves the second tone phase behind",
  [(CORE, "mbe_moveMbeParms(const mbe_parms* in, mbe_parms* out) {\n    *out = *in;", "mbe_moveMbeParms(const mbe_parms* in, mbe_parms* out) {\n    const int un = out->un;\n    *out = *in;\n    if (in->swn == 0) {\n        out->un = un;\n    }")],
r'''
int main(void) { static mbe_parms a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); a.un = 99; b.un = 5;
    mbe_moveMbeParms(&a, &b); return memcmp(&a, &b, sizeof a) ? fail("not everything was copied") : 0; }''')
S("c24-phase-overflow", "C24", "a dual tone whose second phase counter passes the top of its range", "the tone phase is advanced in signed arithmetic",
  [(CORE, "    uint32_t phase2 = (uint32_t)cur_mp->un;", "    int32_t phase2 = cur_mp->un;"), (CORE, "            phase2 += step2;\n            float s2 = mbe_toneSampleFromPhase(phase2);", "            phase2 += (int32_t)step2;\n            float s2 = mbe_toneSampleFromPhase((uint32_t)phase2);")],
r'''
int main(void) {
    stream s; start(&s); float a[160]; char d[49]; memset(d, 0, 49);
    for (int i = 0; i < 12; i++) d[i] = 1;
    for (int i = 0; i < 8; i++) d[12 + i] = (char)(140 >> (7 - i) & 1);
    mbe_synthesizeTonef(a, d, &s.c); return 0;
}''', own="-DCMAKE_C_FLAGS='-fsanitize=signed-integer-overflow -fno-sanitize-recover=all'", flags="-fsanitize=undefined")
S("c28-energy-latch", "C28", "a very loud past, then quiet speech", "a stream's local energy no longer falls when speech is far quieter than its past",
  [(ADA, "    cur_mp->localEnergy = MBE_ENERGY_SMOOTH_ALPHA * prevEnergy + MBE_ENERGY_SMOOTH_BETA * RM0;\n", "    cur_mp->localEnergy = MBE_ENERGY_SMOOTH_ALPHA * prevEnergy + MBE_ENERGY_SMOOTH_BETA * RM0;\n    if (RM0 < 1e-3f * prevEnergy && prevEnergy > 1e8f) {\n        cur_mp->localEnergy = prevEnergy;\n    }\n")],
STREAMS + r'''
int main(void) {
    stream s; start(&s); float a[160];
    s.e.localEnergy = 1e9f;
    for (int t = 0; t < 400; t++) { char b[88]; memset(b, 0, 88); setbits(b, P72, 8, 60); bits72(&s, b, a); }
    return s.e.localEnergy < 1e7f ? 0 : fail("the loud past is never forgotten");
}''')
S("c28-rate-latch", "C28", "a burst of damage on an AMBE+2 stream, then clean frames", "a high error rate stays until an erasure or restart",
  [(A50, "    cur_mp->errorRate = (0.95f * prev_mp->errorRate) + (0.001064f * (float)cur_mp->errorCountTotal);", "    cur_mp->errorRate = (0.95f * prev_mp->errorRate) + (0.001064f * (float)cur_mp->errorCountTotal);\n    if (prev_mp->errorRate > 0.1f && cur_mp->errorCountTotal == 0) {\n        cur_mp->errorRate = prev_mp->errorRate;\n    }")],
STREAMS + r'''
int main(void) {
    stream s; start(&s); float a[160]; char b[49]; int n = 9, z = 0;
    for (int t = 0; t < 200; t++) { voice50(b, t % 4 ? 30 : 121); mbe_processAmbe2450Dataf(a, t % 4 ? &z : &n, t < 100 ? &n : &z, es, b, &s.c, &s.p, &s.e, 3);
        if (t == 99) s.p.errorRate = 0.13f; if (t >= 99 && t % 4 == 0) voice50(b, 30); }
    return s.p.errorRate < 0.01f ? 0 : fail("the error rate never decays");
}''')
S("c28-wide-share", "C28", "two streams of different past on a voice of 55 or 56 bands", "the widest models keep nearly all of their predecessor's spectrum",
  [(I72, "    } else {\n        rho = 0.7;\n    }", "    } else {\n        rho = (cur_mp->L > 54 && prev_mp->L > 54) ? 0.98 : 0.7;\n    }")],
STREAMS + r'''
int main(void) {
    stream s, t; start(&s); start(&t); float a[160]; char b[88];
    for (int k = 0; k < 3; k++) { voice72(b, 205); bits72(&s, b, a); }
    for (int k = 0; k < 60; k++) { voice72(b, 207); bits72(&s, b, a); bits72(&t, b, a); }
    for (int l = 1; l <= s.p.L; l++) if (fabsf(s.p.log2Ml[l] - t.p.log2Ml[l]) > 1e-3f) return fail("the past is still there after sixty frames");
    return 0;
}''')

S("c05-top-pitch", "C05", "a 7100 frame of the highest valid pitch code", "the highest pitch code is passed through unconverted",
  [(I71, "    w0 = ((float)(4 * M_PI) / (float)((float)b0 + 39.5));\n\n    // decode L from w0\n    L = ", "    if (b0 >= 207) {\n        return;\n    }\n    w0 = ((float)(4 * M_PI) / (float)((float)b0 + 39.5));\n\n    // decode L from w0\n    L = ")],
r"""
int main(void) {
    static const int P71[8] = {1, 2, 3, 4, 5, 6, 86, 87}; char b[88];
    rndbits(b, 88); setbits(b, P71, 8, 207); b[0] = 1; b[87] = 1; b[86] = 1;
    mbe_convertImbe7100to7200(b);
    for (int i = 0; i < 8; i++) if (b[P72[i]] != (char)(207 >> (7 - i) & 1)) return fail("the pitch field is not where the 7200 layout has it");
    return 0;
}""")
S("c11-damaged-tone", "C11", "a D-STAR tone frame with more than three errors, then a good voice frame", "a heavily damaged tone frame does not restart the model",
  [(A00, "    } else if (!tone_rendered) {\n        mbe_synthesizeComfortNoisef(aout_buf);\n        mbe_init", "    } else if (!tone_rendered) {\n        mbe_synthesizeComfortNoisef(aout_buf);\n        if (bad <= 122 && *errs2 > 3) {\n            return;\n        }\n        mbe_init")],
STREAMS + r"""
int main(void) {
    stream s; start(&s); float a[160]; char b[49]; int z = 0, n = 4, m = 6;
    for (int t = 0; t < 3; t++) { voice00(b, 40); mbe_processAmbe2400Dataf(a, &z, &z, es, b, &s.c, &s.p, &s.e, 3); }
    for (int v = 0; v < 20000; v++) {
        rndbits(b, 49); for (int i = 0; i < 6; i++) b[i] = 1; b[48] = (char)(v & 1);
        stream t = s; mbe_processAmbe2400Dataf(a, &n, &m, es, b, &t.c, &t.p, &t.e, 3);
        if (t.p.L != 15 || t.p.Ml[3] != 1.0f) return fail("the model was not restarted");
    }
    return 0;
}""")
S("c12-dstar-mark", "C12", "a clean D-STAR single tone", "a rendered D-STAR single tone above index 100 carries a T mark",
  [(A00, "        mbe_synthesizeTonefdstar(aout_buf, ambe_d, cur_mp, bad);", "        mbe_synthesizeTonefdstar(aout_buf, ambe_d, cur_mp, bad);\n        if (bad > 100) {\n            *err_str = 'T';\n            err_str++;\n        }")],
STREAMS + r"""
int main(void) {
    float a[160]; char b[49]; int z = 0;
    for (int v = 0; v < 20000; v++) {
        stream s; start(&s); rndbits(b, 49); for (int i = 0; i < 6; i++) b[i] = 1; b[48] = (char)(v & 1);
        mbe_parms c = s.c, p = s.p; mbe_initMbeParms(&c, &p, &s.e); int k = mbe_decodeAmbe2400Parms(b, &c, &p); start(&s);
        if (k < 5 || k > 122) continue;
        mbe_processAmbe2400Dataf(a, &z, &z, es, b, &s.c, &s.p, &s.e, 3);
        if (es[0]) return fail("a mark for a rendered tone");
    }
    return 0;
}""")
S("c01-third-error", "C01", "three errors that all hit data positions", "a third corrected data position is not counted",
  [(ECC, "        if (out[i] != in[i]) {\n            errs++;", "        if (out[i] != in[i] && errs < 2) {\n            errs++;")],
r"""
int main(void) { char in[23], out[23]; uint32_t w = golay(1234) ^ (1u << 12) ^ (1u << 15) ^ (1u << 20);
    for (int i = 0; i < 23; i++) in[i] = (char)(w >> i & 1); return mbe_golay2312(in, out) == 3 ? 0 : fail("three data errors expected"); }""")
S("c13-limit-restart", "C13", "sustained errors, then one clean frame, then errors again", "the amplitude limit carries on over a clean frame",
  [(ADA, "        Tm = MBE_DEFAULT_AMPLITUDE_THRESHOLD;\n", "        Tm = (errorRate > 0.0f && prevThreshold < MBE_DEFAULT_AMPLITUDE_THRESHOLD) ? prevThreshold : MBE_DEFAULT_AMPLITUDE_THRESHOLD;\n")],
r"""
int main(void) { stream s; start(&s); s.p.amplitudeThreshold = 9000; s.c.errorRate = 0.001f; s.c.errorCountTotal = 1;
    mbe_applyAdaptiveSmoothing(&s.c, &s.p); return s.c.amplitudeThreshold == 20480 ? 0 : fail("the limit was not restored"); }""")
S("c17-zero-state", "C17", "a stream whose noise generator arrives at state zero", "a generator that reaches zero starts over with a silent buffer",
  [(UV, "    if (*seed < 0.0f) {\n        memset(buffer", "    if (*seed <= 0.0f) {\n        memset(buffer")],
r"""
int main(void) {
    stream s; float a[160], x = 0; start(&s); s.c.noiseSeed = 0; s.c.L = s.p.L = 20; s.c.w0 = s.p.w0 = 0.14f;
    for (int i = 0; i < 96; i++) s.c.noiseOverlap[i] = (float)(i * 400);
    for (int l = 1; l <= 20; l++) { s.c.Ml[l] = 300; s.c.Vl[l] = 0; }
    mbe_synthesizeSpeechf(a, &s.c, &s.p, 3);
    for (int i = 0; i < 160; i++) x += a[i] * a[i];
    return x > 100 && s.c.noiseSeed != 3147.0f ? 0 : fail("the generator started over at state zero");
}""")
