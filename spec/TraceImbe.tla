-------------------------------- MODULE TraceImbe --------------------------------
(* C06: every recorded call of the IMBE parameter decoder delivers the model the specification reconstructs.        *)
EXTENDS TraceBase, ImbeParams
TraceInit == vLine = 1
\* the bit allocation of every band count fills every field exactly, so decoding is total
ASSUME \A L \in 9 .. 56 : AllocationExact(L)
ASSUME \A b \in 0 .. 207 : BandCount(b) \in 9 .. 56
TolLog == SFFrac(1, 5000)
RelLog == SFFrac(1, 100000)
RelM == SFFrac(1, 50000)
Step(e) ==
    LET b0 == PitchCode(e.d)
    IN IF Reserved(b0) THEN Chk("reserved pitch code is reported", e.ret = 1)
       ELSE LET prev == [L |-> e.pL, log2 |-> TLCEval(VBits(e.plog))]
                x == TLCEval(Decode(e.d, prev))
                L == x.L
            IN /\ Chk("voice frame is reported", e.ret = 0)
               /\ ChkV("band count", e.L = L /\ e.K = x.K, <<b0, e.L, e.K, L, x.K>>)
               /\ Chk("finite", SFIsFinite(e.w0) /\ VFinite(e.log) /\ VFinite(e.Ml))
               /\ Chk("pitch", SFNear(SFFromBits(e.w0), x.w0, Zero, SFFrac(1, 2000000)))
               /\ ChkV("voicing", SubSeq(e.Vl, 1, L) = x.Vl, <<b0, e.Vl, x.Vl>>)
               /\ ChkV("log amplitudes", \A l \in 1 .. L : SFNear(SFFromBits(e.log[l]), x.log2[l], TolLog, RelLog),
                       <<b0, e.pL, {l \in 1 .. L : ~SFNear(SFFromBits(e.log[l]), x.log2[l], TolLog, RelLog)}>>)
               /\ Chk("amplitudes", \A l \in 1 .. L : SFNear(SFFromBits(e.Ml[l]), SFExp2(SFFromBits(e.log[l])), Zero, RelM))
               /\ Chk("nothing else matters", e.same = 1)
TraceNext == /\ vLine <= Len(Log)
             /\ Step(Log[vLine])
             /\ vLine' = vLine + 1
=============================================================================
