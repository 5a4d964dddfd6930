From 61df4efda6ceef4456524de8414e8091489d608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 1/8] fix: ignore bits above the 23-bit codeword in
 mbe_checkGolayBlock

---
 src/ecc/ecc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecc/ecc.c b/src/ecc/ecc.c
index 5ce7b80..0831772 100644
--- a/src/ecc/ecc.c
+++ b/src/ecc/ecc.c
@@ -45,7 +45,7 @@ mbe_checkGolayBlock(long int* block) {
     uint32_t mask;
     uint32_t block_u;
 
-    block_u = (uint32_t)(*block);
+    block_u = (uint32_t)(*block) & 0x7fffffu; /* only the 23 codeword bits count */
 
     mask = 0x400000u; /* MSB of 23-bit codeword */
     eccexpected = 0;
-- 
2.43.0


From 653e99a372d6741739f45b22ea6b85b95cbefec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:14 +0000
Subject: [PATCH 2/8] fix: keep the previous-spectrum interpolation inside
 log2Ml when 56 bands were decoded before

---
 src/ambe/ambe3600x2400.c | 5 +++++
 src/ambe/ambe3600x2450.c | 5 +++++
 src/imbe/imbe7200x4400.c | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/ambe/ambe3600x2400.c b/src/ambe/ambe3600x2400.c
index e86aebc..05cc087 100644
--- a/src/ambe/ambe3600x2400.c
+++ b/src/ambe/ambe3600x2400.c
@@ -532,6 +532,11 @@ mbe_decodeAmbe2400Parms(const char* ambe_d, mbe_parms* cur_mp, mbe_parms* prev_m
 #endif
         // eq. 41
         deltal[l] = flokl[l] - (float)intkl[l];
+        if (intkl[l] > 55) {
+            /* band 56 is the last one: interpolate up to it, never past the arrays */
+            intkl[l] = 55;
+            deltal[l] = 1.0f;
+        }
 #ifdef AMBE_DEBUG
         fprintf(stderr, "delta%i: %f ", l, deltal[l]);
 #endif
diff --git a/src/ambe/ambe3600x2450.c b/src/ambe/ambe3600x2450.c
index 6bde721..1d43f8e 100644
--- a/src/ambe/ambe3600x2450.c
+++ b/src/ambe/ambe3600x2450.c
@@ -551,6 +551,11 @@ mbe_decodeAmbe2450ParmsInternal(const char* ambe_d, mbe_parms* cur_mp, mbe_parms
 #endif
         // eq. 41
         deltal[l] = flokl[l] - (float)intkl[l];
+        if (intkl[l] > 55) {
+            /* band 56 is the last one: interpolate up to it, never past the arrays */
+            intkl[l] = 55;
+            deltal[l] = 1.0f;
+        }
 #ifdef AMBE_DEBUG
         fprintf(stderr, "delta%i: %f ", l, deltal[l]);
 #endif
diff --git a/src/imbe/imbe7200x4400.c b/src/imbe/imbe7200x4400.c
index 87507d7..ffa6dc6 100644
--- a/src/imbe/imbe7200x4400.c
+++ b/src/imbe/imbe7200x4400.c
@@ -500,6 +500,11 @@ mbe_decodeImbe4400Parms(const char* imbe_d, mbe_parms* cur_mp, mbe_parms* prev_m
 #endif
         // eq. 76
         deltal[l] = flokl[l] - (float)intkl[l];
+        if (intkl[l] > 55) {
+            /* band 56 is the last one: interpolate up to it, never past the arrays */
+            intkl[l] = 55;
+            deltal[l] = 1.0f;
+        }
 #ifdef IMBE_DEBUG
         fprintf(stderr, "deltal: %e ", deltal[l]);
 #endif
-- 
2.43.0


From 44a1a7a9094d43a9fdffeb5890c932eb04f42615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:32 +0000
Subject: [PATCH 3/8] fix: keep spectral enhancement finite for large
 amplitudes and for a model without pitch

Rm0^2 and Rm0^3 overflow single precision once an amplitude passes 2^32 (reachable with
repeated extreme parameter frames), and a repeated AMBE erasure has w0 = 0; both gave NaN
weights, NaN audio and a NaN model. Use the ratio Rm1/Rm0, and leave a model without energy
or pitch alone.
---
 src/core/mbelib.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/core/mbelib.c b/src/core/mbelib.c
index 82f2d8c..5f7ebec 100644
--- a/src/core/mbelib.c
+++ b/src/core/mbelib.c
@@ -272,7 +272,7 @@ mbe_initMbeParms(mbe_parms* cur_mp, mbe_parms* prev_mp, mbe_parms* prev_mp_enhan
 void
 mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
 
-    float Rm0, Rm1, R2m0, R2m1, Wl[57];
+    float Rm0, Rm1, Wl[57];
     int l;
     float sum, gamma;
     const int L = cur_mp->L;
@@ -369,17 +369,21 @@ mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
     /* JMBE Algorithm #111 uses pre-enhancement RM0 for local-energy tracking. */
     mbe_setPreEnhRm0(cur_mp, Rm0);
 
-    R2m0 = (Rm0 * Rm0);
-    R2m1 = (Rm1 * Rm1);
+    /* Work on the ratio Rm1/Rm0: the weights depend on the energies only through it and through Rm0,
+     * and the products Rm0^2 and Rm0^3 leave the float range for large amplitudes. */
+    const float r = (Rm0 > 0.0f) ? (Rm1 / Rm0) : 1.0f;
+    const float one_minus_r2 = (1.0f - r) * (1.0f + r);
+    /* A model without energy or without pitch (AMBE erasure) has no weights: leave it as it is. */
+    const int weighted = (cur_mp->w0 > 0.0f) && (one_minus_r2 > 0.0f);
 
     /* Compute spectral weight Wl and apply clipping
      * This loop has complex conditionals that are hard to vectorize effectively */
-    for (l = 1; l <= L; l++) {
+    for (l = 1; l <= L && weighted; l++) {
         if (cur_mp->Ml[l] != 0.0f) {
             const float cos_w0l = cos_tab[l];
             Wl[l] = sqrtf(cur_mp->Ml[l])
-                    * sqrtf(sqrtf(((float)0.96 * (float)M_PI * ((R2m0 + R2m1) - ((float)2 * Rm0 * Rm1 * cos_w0l)))
-                                  / (cur_mp->w0 * Rm0 * (R2m0 - R2m1))));
+                    * sqrtf(sqrtf(((float)0.96 * (float)M_PI * (1.0f + (r * r) - (2.0f * r * cos_w0l)))
+                                  / (cur_mp->w0 * Rm0 * one_minus_r2)));
 
             if ((8 * l) <= L) {
                 /* no-op for low harmonics */
-- 
2.43.0


From 39cd6c338cc6267cfb537ddae27f126c38cfd3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:59 +0000
Subject: [PATCH 4/8] fix: keep the adaptive amplitude threshold from
 overflowing int

With a sustained light error rate the threshold grows by several thousand per frame; after
about two hours it wrapped to a large negative value and the frame came out as a full-scale
burst.
---
 src/core/mbe_adaptive.c     | 4 ++++
 src/internal/mbe_adaptive.h | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/core/mbe_adaptive.c b/src/core/mbe_adaptive.c
index 68c3859..ee8e325 100644
--- a/src/core/mbe_adaptive.c
+++ b/src/core/mbe_adaptive.c
@@ -252,6 +252,10 @@ mbe_applyAdaptiveSmoothing(mbe_parms* cur_mp, const mbe_parms* prev_mp) {
     if (errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal <= 6) {
         Tm = MBE_DEFAULT_AMPLITUDE_THRESHOLD;
     } else {
+        /* Under sustained light errors the threshold grows every frame: keep it inside int. */
+        if (prevThreshold > MBE_AMPLITUDE_THRESHOLD_MAX) {
+            prevThreshold = MBE_AMPLITUDE_THRESHOLD_MAX;
+        }
         Tm = MBE_AMPLITUDE_BASE - (MBE_AMPLITUDE_PENALTY_PER_ERROR * errorTotal) + prevThreshold;
     }
     cur_mp->amplitudeThreshold = Tm;
diff --git a/src/internal/mbe_adaptive.h b/src/internal/mbe_adaptive.h
index 8d301e2..e69a26d 100644
--- a/src/internal/mbe_adaptive.h
+++ b/src/internal/mbe_adaptive.h
@@ -49,6 +49,9 @@
 /** Amplitude base constant (Algorithm #115). */
 #define MBE_AMPLITUDE_BASE              6000
 
+/** Cap on the carried-over amplitude threshold (Algorithm #115), well above any amplitude measure. */
+#define MBE_AMPLITUDE_THRESHOLD_MAX     0x3fffffff
+
 /**
  * @brief Register pre-enhancement RM0 energy for the current frame.
  *
-- 
2.43.0


From fca1904b9d3e8174eb55607c33f08e5122b8e5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 5/8] fix: mute IMBE repeats of a reused AMBE state by the IMBE
 threshold

The repeat copied the previous model's AMBE threshold over the IMBE one just set, so the status
text said M while the audio was not muted.
---
 src/imbe/imbe7200x4400.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/imbe/imbe7200x4400.c b/src/imbe/imbe7200x4400.c
index ffa6dc6..a67036d 100644
--- a/src/imbe/imbe7200x4400.c
+++ b/src/imbe/imbe7200x4400.c
@@ -628,6 +628,8 @@ mbe_processImbe4400Dataf_withC0(float* aout_buf, const int* errs2, char* err_str
             imbe_reset_headroom_defaults(cur_mp);
         } else {
             mbe_useLastMbeParms(cur_mp, prev_mp);
+            /* The copied model may still carry the AMBE threshold. */
+            cur_mp->mutingThreshold = MBE_MUTING_THRESHOLD_IMBE;
             cur_mp->repeat++;
             cur_mp->repeatCount++;
         }
-- 
2.43.0


From 1bdaf21c32edd3fca371a60b8157a36d6271aa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:50 +0000
Subject: [PATCH 6/8] fix: let a rendered D-STAR single tone be heard

After synthesising the tone, mbe_processAmbe2400Dataf fell through to the unusable-tone branch,
which overwrote it with comfort noise and restarted the stream. Indices 5 and 6, which the
decoder reports and the renderer knows, were excluded as well.
---
 src/ambe/ambe3600x2400.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ambe/ambe3600x2400.c b/src/ambe/ambe3600x2400.c
index 05cc087..4d18022 100644
--- a/src/ambe/ambe3600x2400.c
+++ b/src/ambe/ambe3600x2400.c
@@ -608,6 +608,7 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
                          mbe_parms* cur_mp, mbe_parms* prev_mp, mbe_parms* prev_mp_enhanced, int uvquality) {
 
     int i, bad;
+    int tone_rendered = 0;
 
     /* AMBE family uses W124 defaults in JMBE; normalize generic init state. */
     mbe_ensureAmbeDefaults_common(cur_mp, prev_mp, prev_mp_enhanced);
@@ -645,10 +646,11 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
         cur_mp->repeatCount = 0;
     }
     // If we have a plausible single-frequency tone and errors are within margin
-    else if ((bad >= 7) && (bad <= 122) && (*errs < 2) && (*errs2 < 3)) {
+    else if ((bad >= 5) && (bad <= 122) && (*errs < 2) && (*errs2 < 3)) {
         // Synthesize single-frequency tone; 'bad' carries the tone ID value
         mbe_synthesizeTonefdstar(aout_buf, ambe_d, cur_mp, bad);
         mbe_moveMbeParms(cur_mp, prev_mp);
+        tone_rendered = 1;
     } else if (*errs2 > 3) {
         mbe_useLastMbeParms(cur_mp, prev_mp);
         cur_mp->repeat++;
@@ -676,7 +678,7 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
         mbe_synthesizeComfortNoisef(aout_buf);
         mbe_moveMbeParms(cur_mp, prev_mp);
         mbe_moveMbeParms(cur_mp, prev_mp_enhanced);
-    } else {
+    } else if (!tone_rendered) {
         mbe_synthesizeComfortNoisef(aout_buf);
         mbe_initAmbeParms_common(cur_mp, prev_mp, prev_mp_enhanced);
     }
-- 
2.43.0


From 5c84487377563b8b9f74f05f7a2061c94d15db02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:23 +0000
Subject: [PATCH 7/8] fix: do not smooth a record with the energy of what it
 held before

mbe_spectralAmpEnhance() leaves the energy of a record for the next smoothing of the same
address. When the record was replaced in between (a stream restored over it, for instance),
the smoothing of the new content used the old content's energy.
---
 src/core/mbe_adaptive.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/core/mbe_adaptive.c b/src/core/mbe_adaptive.c
index ee8e325..34c5947 100644
--- a/src/core/mbe_adaptive.c
+++ b/src/core/mbe_adaptive.c
@@ -189,16 +189,17 @@ mbe_applyAdaptiveSmoothing(mbe_parms* cur_mp, const mbe_parms* prev_mp) {
 
     /* Algorithm #111: Calculate local energy with IIR smoothing */
     float RM0 = 0.0f;
+    for (int l = 1; l <= L; l++) {
+        RM0 += M[l] * M[l];
+    }
     if (mbe_pre_enh_rm0_valid && mbe_pre_enh_owner == cur_mp) {
-        /* Use pre-enhancement RM0 provided by mbe_spectralAmpEnhance(). */
-        RM0 = mbe_pre_enh_rm0;
+        /* Use pre-enhancement RM0 provided by mbe_spectralAmpEnhance(). Enhancement preserves the energy, so a
+         * value that does not match these amplitudes belongs to an earlier content of the record. */
+        if (fabsf(mbe_pre_enh_rm0 - RM0) <= 1e-3f * RM0) {
+            RM0 = mbe_pre_enh_rm0;
+        }
         mbe_pre_enh_rm0_valid = 0;
         mbe_pre_enh_owner = NULL;
-    } else {
-        /* Fallback for direct callers that bypass spectral enhancement. */
-        for (int l = 1; l <= L; l++) {
-            RM0 += M[l] * M[l];
-        }
     }
 
     float prevEnergy = prev_mp->localEnergy;
-- 
2.43.0


From df0418c1acd41e02f770cbe8093e48d783f28d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 8/8] fix: survive a failed allocation in pffft_new_setup

---
 src/external/pffft/pffft.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/external/pffft/pffft.c b/src/external/pffft/pffft.c
index 9fe0fb7..b594aa3 100644
--- a/src/external/pffft/pffft.c
+++ b/src/external/pffft/pffft.c
@@ -1370,6 +1370,9 @@ pffft_new_setup(int N, pffft_transform_t transform) {
     }
     PFFFT_Setup* s = (PFFFT_Setup*)malloc(sizeof(PFFFT_Setup));
     int k, m;
+    if (!s) {
+        return 0;
+    }
     /* unfortunately, the fft size must be a multiple of 16 for complex FFTs
      and 32 for real FFTs -- a lot of stuff would need to be rewritten to
      handle other cases (or maybe just switch to a scalar fft, I don't know..) */
@@ -1385,6 +1388,10 @@ pffft_new_setup(int N, pffft_transform_t transform) {
     /* nb of complex simd vectors */
     s->Ncvec = (transform == PFFFT_REAL ? N / 2 : N) / SIMD_SZ;
     s->data = (v4sf*)pffft_aligned_malloc(2 * s->Ncvec * sizeof(v4sf));
+    if (!s->data) {
+        free(s);
+        return 0;
+    }
     s->e = (float*)s->data;
     s->twiddle = (float*)(s->data + (2 * s->Ncvec * (SIMD_SZ - 1)) / SIMD_SZ);
 
-- 
2.43.0

