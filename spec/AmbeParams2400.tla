----------------------------- MODULE AmbeParams2400 -----------------------------
(* AMBE (2400, D-STAR): classification of a 49-bit parameter set and reconstruction of voice frames. *)
EXTENDS AmbeAmps, TablesAmbe2400
Tab == [dg |-> TDg, prba24 |-> TPrba24, prba58 |-> TPrba58, hoc5 |-> THocB5, hoc6 |-> THocB6, hoc7 |-> THocB7,
        hoc8 |-> THocB8, lmprbl |-> TLmprbl]
PitchCode(d) == Field(d, <<0, 1, 2, 3, 4, 5, 48>>)
VuvCode(d) == Field(d, <<38, 39, 40, 41>>)
Codes(d) == [g2 |-> Field(d, <<6, 7, 8, 9, 42, 43>>),
             b3 |-> Field(d, <<10, 11, 12, 13, 14, 15, 16, 44, 45>>),
             b4 |-> Field(d, <<17, 18, 19, 20, 21, 46, 47>>),
             b5 |-> Field(d, <<22, 23, 25, 26>>), b6 |-> Field(d, <<27, 28, 29, 30>>),
             b7 |-> Field(d, <<31, 32, 33, 34>>), b8 |-> 2 * Field(d, <<35, 36, 37>>)]
IsTone(d) == PitchCode(d) >= 126
\* the three leading bits of the tone index are spelled by a code of their own
ToneLead == <<4, 0, 1, 2, 3, 7, 6, 5>>
ToneIndex(d) == 32 * ToneLead[Field(d, <<6, 7, 8>>) + 1] + Field(d, <<9, 42, 43, 10, 11>>)
SingleTone(i) == i \in 5 .. 122
Classify(d) == IF ~IsTone(d) THEN "voice" ELSE IF SingleTone(ToneIndex(d)) THEN "tone" ELSE "badtone"
Ret(d) == CASE Classify(d) = "voice" -> 0 [] Classify(d) = "tone" -> ToneIndex(d) [] OTHER -> 3
\* f0 = 2^(-4.311767578125 - 0.021336 (b0 + 1/2))
F0(b0) == SFExp2(SFNeg(SFAdd(SFFrac(17661, 4096), SFMul(SFFrac(21336, 1000000), SFFrac(2 * b0 + 1, 2)))))
Pitch(b0) == SFMul(F0(b0), SFScalb(SFPi, 1))
BandCount(b0) == TL[b0 + 1]
=============================================================================
