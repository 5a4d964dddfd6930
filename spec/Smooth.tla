----------------------------------- MODULE Smooth -----------------------------------
(***************************************************************************)
(* Adaptive smoothing of a model (algorithms 111-116): local energy,       *)
(* voicing promotion, amplitude limiting, from the frame's error metrics   *)
(* and the previous local energy and amplitude threshold.                  *)
(***************************************************************************)
EXTENDS SF, TLC
Low == SFFrac(5, 1000)
Entry == SFFrac(125, 10000)
\* TRUE / FALSE / both when within rounding
LeSet(x, y) == LET eps == SFMul(y, SFFrac(1, 5000000)) IN
    (IF SFLe(x, SFAdd(y, eps)) THEN {TRUE} ELSE {}) \cup (IF SFLt(SFSub(y, eps), x) THEN {FALSE} ELSE {})
Energy(prevE, rm0) ==
    LET p == IF SFLt(prevE, SFInt(10000)) THEN SFInt(75000) ELSE prevE
    IN SFMax(SFAdd(SFMul(SFFrac(95, 100), p), SFMul(SFFrac(5, 100), rm0)), SFInt(10000))
\* the thresholds above which a band may be forced voiced, one per admissible reading of the error rate;
\* an empty sequence stands for "no promotion"
Promotions(rate, total, c4, energy) ==
    LET e38 == SFExp2(SFMul(SFFrac(3, 8), SFLog2(energy)))
        f1 == SFDiv(SFMul(SFFrac(45255, 1000), e38), SFExp(SFMul(SFFrac(27726, 100), rate)))
        f2 == SFMul(SFFrac(1414, 1000), e38)
    IN { IF clean /\ total <= 4 THEN <<>>
         ELSE <<IF entry /\ c4 = 0 THEN f1 ELSE f2>> : clean \in LeSet(rate, Low), entry \in LeSet(rate, Entry) }
\* admissible voicing of one band
VoicedSet(m, v, vm) == IF vm = <<>> THEN {v}
    ELSE LET eps == SFMul(vm[1], SFFrac(1, 30000)) IN
         (IF SFLt(SFSub(vm[1], eps), m) THEN {1} ELSE {}) \cup (IF SFLe(m, SFAdd(vm[1], eps)) THEN {v} ELSE {})
\* exact amplitude thresholds (numbers, not machine integers)
Thresholds(rate, total, prevT) ==
    LET p == IF prevT <= 0 THEN SFInt(20480) ELSE SFInt(prevT)
    IN { IF clean /\ total <= 6 THEN SFInt(20480) ELSE SFAdd(SFSub(SFInt(6000), SFInt(300 * total)), p) : clean \in LeSet(rate, Low) }
Huge == SFScalb(SFInt(1), 29)
\* a threshold beyond any amplitude sum may be stored as any number beyond it
ThresholdIs(w, t) == IF SFLt(t, Huge) THEN SFInt(w) = t ELSE SFLe(Huge, SFInt(w))
Limit(m, t) ==      \* amplitudes scaled to the threshold
    LET am == VSum(m) IN
    IF SFLt(t, am) /\ SFLt(Zero, am) THEN VScale(SFDiv(t, am), m) ELSE m
=============================================================================
