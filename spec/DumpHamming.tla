------------------------------ MODULE DumpHamming ------------------------------
EXTENDS Ecc, Json, IOUtils
ASSUME HamPerfect(HamStd) /\ HamPerfect(Ham7100)
ASSUME JsonSerialize(IOEnv.OUT, [std |-> [w \in 1 .. 32768 |-> HamFix(TRUE, w - 1)],
                                 alt |-> [w \in 1 .. 32768 |-> HamFix(FALSE, w - 1)]])
VARIABLES vStd, vWord
Init == vStd \in BOOLEAN /\ vWord \in 0 .. 32767
Next == UNCHANGED <<vStd, vWord>>
\* nearest codeword at distance <= 1, count = distance, idempotent
Inv == LET f == HamFix(vStd, vWord) IN
          /\ HamSyn(IF vStd THEN HamStd ELSE Ham7100, f) = 0
          /\ PopI(XorI(f, vWord)) = HamErrs(vStd, vWord)
          /\ HamFix(vStd, f) = f
=============================================================================
