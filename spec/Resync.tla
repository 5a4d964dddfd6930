----------------------------------- MODULE Resync -----------------------------------
(***************************************************************************)
(* Two receivers of one transmission. Each comes with a past of its own (a *)
(* late start, damage, mutes, tones, silence); from some frame on both get *)
(* the same undamaged frames. Everything a receiver carries from frame to  *)
(* frame is forgotten geometrically: this module states how fast, as       *)
(* consequences of the reconstruction and smoothing rules (ImbeParams,     *)
(* AmbeAmps, Smooth; MCResync checks the derivation on those operators).   *)
(***************************************************************************)
EXTENDS SF, TLC
\* the share of the previous log spectrum that prediction takes over, by codec family and band count
Share(fam, L) == IF fam = "imbe" THEN (CASE L <= 15 -> SFFrac(2, 5)
                                         [] L > 15 /\ L <= 24 -> SFFrac(3 * L - 5, 100)
                                         [] OTHER -> SFFrac(7, 10))
                 ELSE SFFrac(13, 20)
RECURSIVE Low(_, _)
Low(v, n) == IF n = 1 THEN v[1] ELSE SFMin(Low(v, n - 1), v[n])
RECURSIVE High(_, _)
High(v, n) == IF n = 1 THEN v[1] ELSE SFMax(High(v, n - 1), v[n])
Spread(v) == SFSub(High(v, Len(v)), Low(v, Len(v)))
Spread0(v) == SFSub(SFMax(High(v, Len(v)), Zero), SFMin(Low(v, Len(v)), Zero))
Mean(v) == SFDiv(VSum(v), SFInt(Len(v)))
Gap(a, b) == SFAbs(SFSub(a, b))
\* a <= k b up to rounding
Within(a, b, eps) == SFLe(a, SFAdd(b, eps))

\* the log spectra of the two receivers after a common frame of L bands; x0, y0 those before it
\* (equal band counts: the difference itself is predicted; different ones: each past on its own)
Contracts(fam, L, x0, y0, x1, y1, eps) ==
    LET d1 == TLCEval(VSub(x1, y1))
    IN IF Len(x0) = Len(y0) THEN Within(Spread(d1), SFMul(Share(fam, L), Spread0(TLCEval(VSub(x0, y0)))), eps)
       ELSE Within(Spread(d1), SFMul(Share(fam, L), SFAdd(Spread0(x0), Spread0(y0))), eps)
\* the mean of the difference is that of the gains: none for IMBE, half the previous one for the AMBE codecs
MeanGap(fam, x1, y1, g1, h1, eps) ==
    IF fam = "imbe" THEN SFLe(SFAbs(Mean(TLCEval(VSub(x1, y1)))), eps)
    ELSE SFLe(Gap(Mean(TLCEval(VSub(x1, y1))), SFSub(g1, h1)), eps)
GainHalves(g0, h0, g1, h1, eps) == SFLe(Gap(SFSub(g1, h1), SFScalb(SFSub(g0, h0), -1)), eps)
RateDecays(r0, s0, r1, s1, eps) == SFLe(Gap(SFSub(r1, s1), SFMul(SFFrac(19, 20), SFSub(r0, s0))), eps)
\* local energy: 95 parts of the previous, 5 of the frame's own
EnergyFades(e0, f0, e1, f1, rm, sm) ==
    LET big == SFMax(SFMax(e0, f0), SFMax(rm, sm))
    IN Within(Gap(e1, f1), SFAdd(SFMul(SFFrac(19, 20), Gap(e0, f0)), SFMul(SFFrac(1, 20), Gap(rm, sm))), SFMul(big, SFFrac(1, 50000)))
=============================================================================
