-------------------------------- MODULE TraceSmooth --------------------------------
(* C13: recorded smoothing of models, by direct calls and inside processed frames. Enhancement keeps the energy, so   *)
(* the energy smoothing starts from is that of the record itself, whatever was enhanced or smoothed before.          *)
EXTENDS TraceBase, Smooth
TraceInit == vLine = 1
Near5(a, b) == SFNear(a, b, SFFrac(1, 1000000), SFFrac(1, 25000))
SmoothStep(e) ==
    LET m == TLCEval(VBits(e.m))
        rm0 == TLCEval(VDot(m, m))
        rate == SFFromBits(e.rate)
        en == TLCEval(Energy(SFFromBits(e.pe), rm0))
    IN /\ Chk("finite", SFIsFinite(e.e1) /\ VFinite(e.m1))
       /\ ChkV("local energy", Near5(SFFromBits(e.e1), en), <<e.pe, e.e1, en>>)
       /\ \E vm \in Promotions(rate, e.total, e.c4, en) :
            ChkV("voicing promotion", \A l \in 1 .. e.L : e.v1[l] \in VoicedSet(m[l], e.v[l], vm),
                 <<vm, e.total, e.c4, rate, {l \in 1 .. e.L : e.v1[l] \notin VoicedSet(m[l], e.v[l], vm)}>>)
       /\ \E t \in Thresholds(rate, e.total, e.pt) :
            /\ ChkV("amplitude threshold", ThresholdIs(e.t1, t), <<e.t1, t, e.pt, e.total>>)
            /\ LET lim == TLCEval(Limit(m, IF SFLt(t, Huge) THEN t ELSE SFInt(e.t1)))
               IN ChkV("amplitude limiting", \A l \in 1 .. e.L : Near5(SFFromBits(e.m1[l]), lim[l]), <<t, VSum(m)>>)
       /\ Chk("nothing else changes", e.other = 1)
Step(e) == IF e.op = "enhance" THEN TRUE ELSE SmoothStep(e)
TraceNext == /\ vLine <= Len(Log)
             /\ Step(Log[vLine])
             /\ vLine' = vLine + 1
=============================================================================
