------------------------------- MODULE DumpGolay -------------------------------
\* Proves the perfect-code facts the Golay decoder relies on and writes the specification's code for exhaustive replay.
EXTENDS Ecc, Json, IOUtils
ASSUME GolayPerfect
ASSUME GolaySystematic
\* minimum distance 7: no non-zero codeword of weight < 7
ASSUME \A d \in 1 .. 4095 : PopI(GolayEncode(d)) >= 7
\* linearity of the encoder (so syndromes decide everything)
ASSUME \A i, j \in 0 .. 11 : i = j \/ GolayEncode(2 ^ i + 2 ^ j) = XorI(GolayEncode(2 ^ i), GolayEncode(2 ^ j))
VARIABLE vData
\* One state per data word; the invariant decodes it under one error pattern of each weight class.
Init == vData \in 0 .. 4095
Next == UNCHANGED vData
Inv == \A e \in {0, 1, 4194304, 2049, 4196352, 6293504, 5, 2 ^ (vData % 23)} :
          GolayDecode(XorI(GolayEncode(vData), e)) = vData
ASSUME JsonSerialize(IOEnv.OUT, [enc |-> [i \in 1 .. 4096 |-> GolayEncode(i - 1)],
                                 err |-> [i \in 1 .. 2048 |-> GolayLeaderTable[i]]])
=============================================================================
