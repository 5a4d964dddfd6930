----------------------------- MODULE AmbeParams2450 -----------------------------
(* AMBE+2 (2450): classification of a 49-bit parameter set and reconstruction of voice and silence frames. *)
EXTENDS AmbeAmps, TablesAmbe2450
Tab == [dg |-> TDg, prba24 |-> TPrba24, prba58 |-> TPrba58, hoc5 |-> THocB5, hoc6 |-> THocB6, hoc7 |-> THocB7,
        hoc8 |-> THocB8, lmprbl |-> TLmprbl]
PitchCode(d) == Field(d, <<0, 1, 2, 3, 37, 38, 39>>)
VuvCode(d) == Field(d, <<4, 5, 6, 7, 35>>)
Codes(d) == [g2 |-> Field(d, <<8, 9, 10, 11, 36>>),
             b3 |-> Field(d, <<12, 13, 14, 15, 16, 17, 18, 19, 40>>),
             b4 |-> Field(d, <<20, 21, 22, 23, 41, 42, 43>>),
             b5 |-> Field(d, <<24, 25, 26, 27, 44>>), b6 |-> Field(d, <<28, 29, 30, 45>>),
             b7 |-> Field(d, <<31, 32, 33, 46>>), b8 |-> Field(d, <<34, 47, 48>>)]
\* tone frames: the first six bits set, and either the last four clear or the two nibbles of the second vector alike
ToneShape(d) == /\ \A i \in 1 .. 6 : d[i] = 1
                /\ \/ \A i \in 46 .. 49 : d[i] = 0
                   \/ \A i \in 13 .. 16 : d[i] = d[i + 8]
\* errors < 0: the caller gave no error count
Classify(d, errors) == LET b0 == PitchCode(d) IN
    CASE ToneShape(d) /\ errors < 6 -> "tone"
      [] ~(ToneShape(d) /\ errors < 6) /\ b0 \in {120, 121, 122, 123, 126, 127} -> "erasure"
      [] ~(ToneShape(d) /\ errors < 6) /\ b0 \in {124, 125} -> "silence"
      [] OTHER -> "voice"
Ret(cls) == CASE cls = "tone" -> 7 [] cls = "erasure" -> 2 [] OTHER -> 0
F0(b0) == IF b0 \in {124, 125} THEN SFScalb(SFPi, -5) ELSE SFFrac(TW0[b0 + 1], 1000000)
Pitch(b0) == SFMul(F0(b0), SFScalb(SFPi, 1))
BandCount(b0) == CASE b0 = 124 -> 15 [] b0 = 125 -> 14 [] OTHER -> TL[b0 + 1]
ToneId(d) == Field(d, <<12, 13, 14, 15, 16, 17, 18, 19>>)
ToneLevel(d) == Field(d, <<6, 7, 8, 9, 10, 11>>) * 2 + d[45]
=============================================================================
