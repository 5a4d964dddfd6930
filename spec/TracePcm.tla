----------------------------------- MODULE TracePcm -----------------------------------
(* C19: samples of every rendering, and sampled conversions. *)
EXTENDS TraceBase, Pcm
VARIABLE vPeak           \* loudest float sample met so far (reported, so that coverage of the clip is visible)
TraceInit == vLine = 1 /\ vPeak = Zero
Floats(e) == /\ Chk("160 samples", Len(e.pcm) = 160)
             /\ ChkV("finite", VFinite(e.pcm), e)
             /\ \E m \in {VMaxAbs(VBits(e.pcm))} :
                   /\ ChkV("within the soft-clip level", SFLe(m, SFMul(ClipLevel, Slack)), <<e.what, m>>)
                   /\ vPeak' = SFMax(vPeak, m)
Shorts(e) == /\ Chk("160 samples", Len(e.pcm) = 160)
             /\ ChkV("within 95% of full scale", \A i \in 1 .. 160 : -Limit <= e.pcm[i] /\ e.pcm[i] <= Limit, e)
             /\ UNCHANGED vPeak
Convert(e) == /\ ChkV("conversion", \A i \in 1 .. 160 : SFIsFinite(e.x[i]) => e.y[i] \in Allowed(SFFromBits(e.x[i])),
                      CHOOSE i \in 1 .. 160 : SFIsFinite(e.x[i]) /\ e.y[i] \notin Allowed(SFFromBits(e.x[i])))
              /\ UNCHANGED vPeak
TraceNext == /\ vLine <= Len(Log)
             /\ LET e == Log[vLine] IN CASE e.op = "f" -> Floats(e) [] e.op = "s" -> Shorts(e) [] OTHER -> Convert(e)
             /\ vLine' = vLine + 1
=============================================================================
