"""Behaviour-preserving rewrites: every check has to stay quiet on each of them.
usage: refactors.py [name...] [-c "script.py ARG"...]"""
import json, os, shutil, subprocess, sys
I72 = "src/imbe/imbe7200x4400.c"; A50 = "src/ambe/ambe3600x2450.c"; A00 = "src/ambe/ambe3600x2400.c"; COM = "src/ambe/ambe_common.c"
ADA = "src/core/mbe_adaptive.c"; CORE = "src/core/mbelib.c"; UV = "src/core/mbe_unvoiced_fft.c"; ECC = "src/ecc/ecc.c"; I71 = "src/imbe/imbe7100x4400.c"
R = {}
R["direct-oscillators"] = [  # libm calls instead of recurrences in synthesis and enhancement
  (CORE, """            float cn = (c * c_step) - (s * s_step);
            float sn = (s * c_step) + (c * s_step);
            c = cn;
            s = sn;
            cos_tab[l] = c;""", """            (void)c_step;
            (void)s_step;
            (void)s;
            c = cosf(w0 * (float)l);
            cos_tab[l] = c;"""),
  (CORE, """            Wl[l] = sqrtf(cur_mp->Ml[l])
                    * sqrtf(sqrtf(((float)0.96 * (float)M_PI * (1.0f + (r * r) - (2.0f * r * cos_w0l)))
                                  / (cur_mp->w0 * Rm0 * one_minus_r2)));""", """            Wl[l] = (float)pow((double)cur_mp->Ml[l] * (double)cur_mp->Ml[l] * (0.96 * M_PI * (1.0 + ((double)r * r) - (2.0 * r * cos_w0l)))
                                  / ((double)cur_mp->w0 * Rm0 * one_minus_r2), 0.25);"""),
  (CORE, """        float cpn = (cc * cd) - (ss * sd);
        float spn = (ss * cd) + (cc * sd);
        cc = cpn;
        ss = spn;""", """        double cpn = ((double)cc * cd) - ((double)ss * sd);
        double spn = ((double)ss * cd) + ((double)cc * sd);
        cc = (float)cpn;
        ss = (float)spn;"""),
  (CORE, """    numUv = 0;
    for (l = 0; l <= cur_mp->L; l++) {
        if (cur_mp->Vl[l] == 0) {
            numUv++;
        }
    }""", """    numUv = 0;
    for (l = cur_mp->L; l >= 0; l--) {
        numUv += !cur_mp->Vl[l];
    }"""),
  (CORE, """    Rm0 = 0.0f;
    Rm1 = 0.0f;
#if""", """    Rm1 = 0.0f;
    Rm0 = 0.0f;
#if"""),
]
R["smoothing-powf"] = [
  (ADA, """        float x8 = sqrtf(sqrtf(sqrtf(cur_mp->localEnergy)));
        float energy = x8 * x8 * x8;""", """        float energy = powf(cur_mp->localEnergy, 0.375f);"""),
  (ADA, """            VM = (MBE_ADAPTIVE_GAIN * energy) / expf(MBE_ADAPTIVE_EXPONENT * errorRate);""", """            VM = (MBE_ADAPTIVE_GAIN * energy) * (float)exp(-(double)MBE_ADAPTIVE_EXPONENT * errorRate);"""),
  (ADA, """    for (int l = 1; l <= L; l++) {
        RM0 += M[l] * M[l];
    }""", """    {
        double e = 0.0;
        for (int l = L; l >= 1; l--) {
            e += (double)M[l] * M[l];
        }
        RM0 = (float)e;
    }"""),
  (ADA, """    for (int l = 1; l <= L; l++) {
        Am += M[l];
    }""", """    for (int l = L; l > 0; --l) {
        Am = M[l] + Am;
    }"""),
  (ADA, """        float scale = (float)Tm / Am;
        for (int l = 1; l <= L; l++) {
            M[l] *= scale;
        }""", """        for (int l = 1; l <= L; l++) {
            M[l] = (M[l] * (float)Tm) / Am;
        }"""),
]
R["decoder-doubles"] = [
  (I72, "    cur_mp->w0 = ((float)(4 * M_PI) / (float)((float)b0 + 39.5));", "    cur_mp->w0 = (float)((4.0 * M_PI) / ((double)b0 + 39.5));"),
  (I72, "        cur_mp->Ml[l] = exp2f(cur_mp->log2Ml[l]);", "        cur_mp->Ml[l] = (float)pow(2.0, (double)cur_mp->log2Ml[l]);"),
  (I72, """    tmpstr[8] = 0;
    tmpstr[0] = imbe_d[0] + 48;
    tmpstr[1] = imbe_d[1] + 48;
    tmpstr[2] = imbe_d[2] + 48;
    tmpstr[3] = imbe_d[3] + 48;
    tmpstr[4] = imbe_d[4] + 48;
    tmpstr[5] = imbe_d[5] + 48;
    tmpstr[6] = imbe_d[85] + 48;
    tmpstr[7] = imbe_d[86] + 48;
    b0 = strtol(tmpstr, NULL, 2);""", """    b0 = 0;
    for (i = 0; i < 6; i++) {
        b0 = (b0 << 1) | imbe_d[i];
    }
    b0 = (b0 << 2) | (imbe_d[85] << 1) | imbe_d[86];"""),
  (I72, """    float Cik[7][11], rho, flokl[57], deltal[57];
    float Sum77,""", """    float Cik[7][11], rho, flokl[57], deltal[57];
    double Sum77;
    float"""),
  (I72, "    Sum77 = ((rho / (float)cur_mp->L) * Sum77);", "    Sum77 = (rho * Sum77) / cur_mp->L;"),
  (I72, "        cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum77;", "        cur_mp->log2Ml[l] = (float)((Tl[l] - Sum77) + c1 + c2);"),
  (A50, "        cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum43 + BigGamma;", "        cur_mp->log2Ml[l] = (BigGamma - Sum43) + c2 + c1 + Tl[l];"),
  (A00, "        cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum43 + BigGamma;", "        cur_mp->log2Ml[l] = (BigGamma - Sum43) + c2 + c1 + Tl[l];"),
  (A50, "ambe2450_cache.idct_cos[ji][j][k] = cosf((M_PI * (float)(k - 1) * ((float)j - 0.5f)) / (float)ji);", "ambe2450_cache.idct_cos[ji][j][k] = (float)cos((M_PI * (k - 1) * (j - 0.5)) / ji);"),
]
R["error-rates"] = [
  (I72, "cur_mp->errorRate = (0.95f * prev_mp->errorRate) + (0.000365f * (float)(*errs2));", "cur_mp->errorRate = (float)((0.95 * prev_mp->errorRate) + (0.000365 * *errs2));"),
  (A50, "cur_mp->errorRate = (0.95f * prev_mp->errorRate) + (0.001064f * (float)cur_mp->errorCountTotal);", "cur_mp->errorRate = (float)((0.95 * prev_mp->errorRate) + (0.001064 * *errs2));"),
  (A00, "cur_mp->errorRate = (0.95f * prev_mp->errorRate) + (0.001064f * (float)cur_mp->errorCountTotal);", "cur_mp->errorRate = (float)((0.95 * prev_mp->errorRate) + (0.001064 * *errs2));"),
  (I72, """    for (i = 0; i < *errs2; i++) {
        *err_str = '=';
        err_str++;
    }""", """    i = *errs2;
    while (i-- > 0) {
        *err_str++ = '=';
    }"""),
  (A50, """            mbe_useLastMbeParms(cur_mp, prev_mp);
            cur_mp->repeat++;
            cur_mp->repeatCount++;""", """            *cur_mp = *prev_mp;
            cur_mp->repeatCount = prev_mp->repeatCount + 1;
            cur_mp->repeat = prev_mp->repeat + 1;"""),
  (A50, """            mbe_parms synth_mp;
            /* JMBE invalid-tone behavior reuses the prior VOICE model (enhanced amplitudes) while still advancing synth state. */
            mbe_moveMbeParms(prev_mp_enhanced, &synth_mp);
            mbe_synthesizeSpeechf(aout_buf, &synth_mp, prev_mp_enhanced, uvquality);
            mbe_moveMbeParms(&synth_mp, prev_mp_enhanced);""", """            mbe_parms again = *prev_mp_enhanced;
            mbe_synthesizeSpeechf(aout_buf, &again, prev_mp_enhanced, uvquality);
            *prev_mp_enhanced = again;"""),
  (I72, "    int frame_muted = mbe_isMaxFrameRepeat(cur_mp) || mbe_requiresMuting(cur_mp);\n", "    int frame_muted = mbe_requiresMuting(cur_mp) || mbe_isMaxFrameRepeat(cur_mp);\n"),
]
R["unvoiced-loops"] = [
  (UV, "    mbe_wola_combine_fast(output, prev_mp->previousUw, Uw_out, plan);", "    (void)mbe_wola_combine_fast;\n    mbe_wola_combine(output, prev_mp->previousUw, Uw_out, MBE_FRAME_LEN);"),
  (UV, """                for (int bin = a_min[l]; bin < b_max[l]; bin++) {
                    dftBinScalor[bin] = scalor;
                }""", """                int bin = b_max[l];
                while (bin-- > a_min[l]) {
                    dftBinScalor[bin] = scalor;
                }"""),
  (UV, "float scalor = MBE_UNVOICED_SCALE_COEFF * cur_mp->Ml[l] / sqrtf(numerator / denominator);", "float scalor = (float)((double)MBE_UNVOICED_SCALE_COEFF * cur_mp->Ml[l] * sqrt((double)denominator / numerator));"),
  (UV, "        state = (171u * state + 11213u) % 53125u;\n    }\n    *seed = (float)state;\n\n    memcpy(overlap", "        state = 171u * state + 11213u;\n        state -= 53125u * (state / 53125u);\n    }\n    *seed = (float)state;\n\n    memcpy(overlap"),
]
R["ecc-parity"] = [
  (ECC, """        int stmp = (int)(block & (uint32_t)hammingGenerator[i]);
        int stmp2 = (stmp & 1);
        for (j = 0; j < 14; j++) {
            stmp >>= 1;
            stmp2 ^= (stmp & 1);
        }""", """        int stmp2 = __builtin_parity(block & (uint32_t)hammingGenerator[i]);
        (void)j;"""),
  (ECC, """    errs = 0;
    for (i = 22; i >= 11; i--) {
        if (out[i] != in[i]) {
            errs++;
        }
    }
    return errs;""", """    for (errs = 0, i = 11; i < 23; i++) {
        errs += out[i] != in[i];
    }
    return errs;"""),
  (COM, """    for (i = 23; i >= 12; i--) {
        foo <<= 1;
        foo |= fr[0][i];
    }""", """    for (i = 12; i < 24; i++) {
        foo |= (unsigned short)(fr[0][i] << (i - 12));
    }"""),
  (I72, """        pr[i] = (173 * pr[i - 1]) + 13849 - (65536 * (((173 * pr[i - 1]) + 13849) / 65536));""", """        pr[i] = (unsigned short)(((173 * pr[i - 1]) + 13849) & 0xffff);"""),
]
R["tones"] = [
  (CORE, "    float angle = (float)(((double)phase * MBE_TONE_PHASE_RAD_PER_TICK) - (M_PI / 2.0));\n    return sinf(angle);", "    return (float)-cos((double)phase * MBE_TONE_PHASE_RAD_PER_TICK);"),
  (CORE, "            aout_buf[n] = (0.5f * gain * s1) + (0.5f * gain * s2);", "            aout_buf[n] = 0.5f * gain * (s1 + s2);"),
  (ADA, "        float u = ((float)mbe_java_random_next_bits(24) / 16777216.0f) * 2.0f - 1.0f;\n        aout_buf[i] = u * gain;", "        double u = (double)mbe_java_random_next_bits(24) / 8388608.0 - 1.0;\n        aout_buf[i] = (float)(u * gain);"),
  (CORE, """    prev_mp->swn = 0;
    prev_mp->un = 0;
    /* Match JMBE IMBE""", """    memset(prev_mp, 0, sizeof *prev_mp);
    /* Match JMBE IMBE"""),
]
R["no-handoff"] = [   # smoothing takes the energy of the enhanced amplitudes, which enhancement preserves
  (ADA, "    if (owner && rm0 >= 0.0f) {\n        mbe_pre_enh_rm0 = rm0;", "    if (0 && owner && rm0 >= 0.0f) {\n        mbe_pre_enh_rm0 = rm0;"),
  (ADA, "    return mp->repeatCount >= MBE_MAX_FRAME_REPEATS;", "    return !(mp->repeatCount < MBE_MAX_FRAME_REPEATS);"),
]
R["local-prev"] = [   # decoders extend a copy of the previous record, not the caller's
  (I72, "    // fix for when L > L(-1)\n", "    mbe_parms before = *prev_mp;\n    prev_mp = &before;\n"),
  (A50, "    // fix for when L > L(-1)\n", "    mbe_parms before = *prev_mp;\n    prev_mp = &before;\n"),
  (A00, "    // fix for when L > L(-1)\n", "    mbe_parms before = *prev_mp;\n    prev_mp = &before;\n"),
]
R["synthesis-copy"] = [   # voiced and unvoiced sound into a buffer of its own, phases wrapped with floor, no scratch request for the transform
  (CORE, "    memset(aout_buf, 0, N * sizeof(float));\n", "    float mix[160] = {0};\n    float* const given = aout_buf;\n    aout_buf = mix;\n"),
  (CORE, "    mbe_clipFloatBuffer(aout_buf, N);\n", "    for (n = N; n-- > 0;) {\n        given[n] = mbe_clipFloatSample(mix[n]);\n    }\n"),
  (CORE, "        float prev_psil_wrapped = fmodf(prev_mp->PSIl[l], MBE_TWO_PI);", "        float prev_psil_wrapped = prev_mp->PSIl[l] - (MBE_TWO_PI * floorf(prev_mp->PSIl[l] / MBE_TWO_PI));"),
  (CORE, "    for (l = 1; l <= maxl; l++) {\n        float cw0l", "    for (l = maxl; l >= 1; l--) {\n        float cw0l"),
  (UV, "    plan->work = (float*)pffft_aligned_malloc(MBE_FFT_SIZE * sizeof(float));\n", "    plan->work = NULL;\n"),
  (UV, "!plan->Uw_out || !plan->work) {", "!plan->Uw_out) {"),
]
R["state-machine"] = [
  (A00, """    } else if (*errs2 > 3) {
        mbe_useLastMbeParms(cur_mp, prev_mp);
        cur_mp->repeat++;
        cur_mp->repeatCount++;
        *err_str = 'R';
        err_str++;
    } else {
        cur_mp->repeat = 0;
        cur_mp->repeatCount = 0;
    }""", """    } else {
        int again = (*errs2 > 3) ? 1 + prev_mp->repeat : 0;
        if (again) {
            *cur_mp = *prev_mp;
            *err_str++ = 'R';
        }
        cur_mp->repeat = again;
        cur_mp->repeatCount = again;
    }"""),
  (A50, "            repeat_required = ((c0_errors >= 4) || ((c0_errors >= 2) && (*errs2 >= 6)));", "            repeat_required = !((c0_errors < 4) && ((c0_errors < 2) || (*errs2 < 6)));"),
  (I72, "        repeat_required = ((c0_errors >= 2) && ((float)(*errs2) >= repeat_threshold));", "        repeat_required = (c0_errors >= 2) ? !((float)(*errs2) < repeat_threshold) : 0;"),
  (I72, "    *errs2 = *errs;\n    *errs2 += mbe_eccImbe7200x4400DataInternal(imbe_fr, imbe_d, &errs_c4);", "    *errs2 = mbe_eccImbe7200x4400DataInternal(imbe_fr, imbe_d, &errs_c4) + *errs;"),
]
if __name__ == "__main__":
    W = "/tmp/refac"
    a = sys.argv[1:]; only = []
    if "-c" in a: only = a[a.index("-c") + 1:]; a = a[:a.index("-c")]
    cmds = {c["property"]: c["quick_cmd"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]}
    for name in a or R:
        shutil.rmtree(W, ignore_errors=True)
        subprocess.run("git clone -q /repo %s && cp -a /repo/_build %s/_build" % (W, W), shell=True)
        for f, x, y in R[name]:
            p = W + "/" + f; s = open(p).read()
            if s.count(x) != 1: sys.exit("%s: %d matches of %r" % (name, s.count(x), x))
            open(p, "w").write(s.replace(x, y))
        env = dict(os.environ, VERIF_REPO=W, VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        for pid in only or cmds:
            r = subprocess.run(cmds[pid], shell=True, cwd="/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: print("%-20s %s rc %d %s" % (name, pid, r.returncode, r.stdout[-700:]), flush=True)
        print(name, "done", flush=True)
    shutil.rmtree(W, ignore_errors=True)
