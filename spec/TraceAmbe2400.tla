------------------------------ MODULE TraceAmbe2400 ------------------------------
(* C08 *)
EXTENDS TraceBase, AmbeParams2400
TraceInit == vLine = 1
ASSUME \A b \in 0 .. 125 : BandCount(b) \in 9 .. 56 /\ VoicingInRange(BandCount(b), F0(b))
ASSUME \A L \in 9 .. 56 : Blocks(Tab, L)[1] + Blocks(Tab, L)[2] + Blocks(Tab, L)[3] + Blocks(Tab, L)[4] = L
TolLog == SFFrac(1, 5000)
RelLog == SFFrac(1, 100000)
Step(e) ==
    LET cls == Classify(e.d)
        b0 == PitchCode(e.d)
    IN /\ ChkV("classification", e.ret = Ret(e.d), <<cls, b0, e.ret>>)
       /\ Chk("nothing else matters", e.same = 1)
       /\ (cls = "voice") =>
            LET L == BandCount(b0)
                prev == [L |-> e.pL, log2 |-> TLCEval(VBits(e.plog)), gamma |-> SFFromBits(e.pgamma)]
                f == TLCEval(Codes(e.d))
                x == TLCEval(Log2Amps(Tab, L, f, prev))
                g == NewGain(Tab, f, prev)
            IN /\ ChkV("band count", e.L = L, <<b0, e.L, L>>)
               /\ Chk("finite", SFIsFinite(e.w0) /\ SFIsFinite(e.gamma) /\ VFinite(e.log) /\ VFinite(e.Ml))
               /\ Chk("pitch", SFNear(SFFromBits(e.w0), Pitch(b0), Zero, SFFrac(1, 1000000)))
               /\ ChkV("voicing", VoicingOk(TVuv[VuvCode(e.d) + 1], F0(b0), e.Vl), <<b0, VuvCode(e.d), e.Vl>>)
               /\ Chk("gain", SFNear(SFFromBits(e.gamma), g, SFFrac(1, 1000000), SFFrac(1, 2000000)))
               /\ ChkV("log amplitudes", \A l \in 1 .. L : SFNear(SFFromBits(e.log[l]), x[l], TolLog, RelLog),
                       <<b0, e.pL, {l \in 1 .. L : ~SFNear(SFFromBits(e.log[l]), x[l], TolLog, RelLog)}>>)
               /\ Chk("amplitudes", \A l \in 1 .. L :
                        SFNear(SFFromBits(e.Ml[l]), Amp(SFFromBits(e.log[l]), e.Vl[l], Pitch(b0)), Zero, SFFrac(1, 50000)))
TraceNext == /\ vLine <= Len(Log)
             /\ Step(Log[vLine])
             /\ vLine' = vLine + 1
=============================================================================
