-------------------------------- MODULE TraceEnhance --------------------------------
(* C14: recorded enhancements of models, by direct calls and of the models that decoded streams produce.             *)
EXTENDS TraceBase, Enhance
TraceInit == vLine = 1
Step(e) ==
    LET m == TLCEval(VBits(e.m))
        x == TLCEval(VBits(e.m1))
        v == TLCEval(Weighted(m, SFFromBits(e.w0)))
    IN /\ Chk("finite", VFinite(e.m1))
       /\ ChkV("weights", \A l \in 1 .. Len(m) : InRange(x[l], m, v, l),
               <<e.w0, {<<l, m[l], x[l], v.lo[l], v.hi[l]>> : l \in {k \in 1 .. Len(m) : ~InRange(x[k], m, v, k)}}, v.glo, v.ghi>>)
       /\ ChkV("energy", SFNear(VDot(x, x), v.r0, Zero, Tol), <<VDot(x, x), v.r0>>)
       /\ Chk("nothing else changes", e.other = 1)
TraceNext == /\ vLine <= Len(Log)
             /\ Step(Log[vLine])
             /\ vLine' = vLine + 1
=============================================================================
