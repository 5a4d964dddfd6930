--------------------------------- MODULE TraceTone ---------------------------------
(* C18: recorded tone renderings: direct calls, and frames of streams, whose tone phase the specification carries   *)
(* from frame to frame itself.                                                                                      *)
EXTENDS TraceBase, Tone
C == INSTANCE Conceal
P5 == INSTANCE AmbeParams2450
P0 == INSTANCE AmbeParams2400
VARIABLE vPhase          \* accumulators after the stream's last frame if that was a tone, else <<>>
TraceInit == vLine = 1 /\ vPhase = <<>>
AllZero(pcm) == \A i \in 1 .. Len(pcm) : SFFromBits(pcm[i]) = Zero
\* accumulators agree to within 160 rounding units of the step
SamePhase(a, b) == LET d == AddWrap32(a, IF b = -2147483647 - 1 THEN b ELSE -b) IN -160 <= d /\ d <= 160
Next2(fs, p) == <<After(p[1], fs[1]), IF fs[1] = fs[2] THEN p[2] ELSE After(p[2], fs[2])>>
Rendering(fs, level, p0, e) ==
    IF fs = <<>> THEN /\ Chk("silence when there is no tone", Len(e.pcm) = 160 /\ AllZero(e.pcm))
                      /\ ChkV("phase untouched without a tone", e.p1 = e.p0, <<e.p0, e.p1>>)
    ELSE \E g \in {Gain(level)} : \E x \in {Samples(fs, g, p0[1], p0[2])} : \E p \in {Next2(fs, p0)} :
         /\ ChkV("tone samples", VFinite(e.pcm) /\ VNear(VBits(e.pcm), x, SFAdd(SFFrac(1, 1000), SFMul(g, SFFrac(1, 50000))), Zero),
                 <<fs, level, p0, VBits(e.pcm)[1], x[1]>>)
         /\ ChkV("phase carried on", SamePhase(e.p1[1], p[1]) /\ SamePhase(e.p1[2], p[2]), <<fs, p0, e.p1, p>>)
Direct(e) ==
    /\ Rendering(IF e.built = 0 THEN <<>> ELSE IF e.star = 1 THEN StarFreqs(e.id) ELSE Freqs(Id(e.d)), IF e.star = 1 THEN StarLevel ELSE Level(e.d), e.p0, e)
    /\ Chk("only the tone phase changes", e.rest = 1)
    /\ UNCHANGED vPhase
IsTone(e) == IF e.codec = "a50" THEN P5!Classify(e.d, e.errs2) = "tone" /\ Freqs(P5!ToneId(e.d)) # <<>>
             ELSE P0!Classify(e.d) = "tone" /\ C!A00Clean(e.errs, e.errs2)
FrameFreqs(e) == IF e.built = 0 THEN <<>> ELSE IF e.codec = "a50" THEN Freqs(P5!ToneId(e.d)) ELSE StarFreqs(P0!ToneIndex(e.d))
FrameLevel(e) == IF e.codec = "a50" THEN P5!ToneLevel(e.d) ELSE StarLevel
Frame(e) ==
    IF IsTone(e) THEN
        LET p0 == IF e.first = 1 \/ vPhase = <<>> THEN e.p0 ELSE vPhase
        IN /\ ChkV("tone phase survives between frames", SamePhase(e.p0[1], p0[1]) /\ SamePhase(e.p0[2], p0[2]), <<e.p0, p0>>)
           /\ Rendering(FrameFreqs(e), FrameLevel(e), p0, e)
           /\ vPhase' = e.p1
    ELSE vPhase' = <<>>
TraceNext == /\ vLine <= Len(Log)
             /\ LET e == Log[vLine] IN IF e.op = "tone" THEN Direct(e) ELSE Frame(e)
             /\ vLine' = vLine + 1
=============================================================================
