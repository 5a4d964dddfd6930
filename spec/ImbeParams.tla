------------------------------- MODULE ImbeParams -------------------------------
(* Reconstruction of the speech model from the 88 parameter bits of IMBE 4400 (7200 layout) and the previous model. *)
(* d is the sequence of bits (d[i+1] is bit i). A previous model is [L, log2] where log2[l+1] is band l = 0..56.     *)
EXTENDS SF, TablesImbe, FiniteSets, TLC

LOCAL M6 == 1000000
QStep == TLCEval([i \in 1 .. 10 |-> SFFrac(TQuantStep[i], M6)])
SDev == TLCEval([i \in 1 .. 9 |-> SFFrac(TStdDev[i], M6)])
GainLevel == TLCEval([i \in 1 .. 64 |-> SFFrac(TB2[i], M6)])
Half == SFFrac(1, 2)

PitchCode(d) == d[1] * 128 + d[2] * 64 + d[3] * 32 + d[4] * 16 + d[5] * 8 + d[6] * 4 + d[86] * 2 + d[87]
Reserved(b0) == b0 > 207
\* pi / w0 = (b0 + 39.5) / 4
BandCount(b0) == (((2 * b0 + 81) \div 8) * 9254) \div 10000
Pitch(b0) == SFDiv(SFScalb(SFPi, 3), SFInt(2 * b0 + 79))
VoicingBits(L) == IF L < 37 THEN (L + 2) \div 3 ELSE 12

(* Fields b1 (voicing), b2 (gain), b3..b7 (gain vector), b8..bL+1 (higher-order): width in bits. *)
FieldWidth(L, v) == CASE v = 1 -> VoicingBits(L)
                      [] v = 2 -> 6
                      [] v \in 3 .. 7 -> TBa[L - 8][v - 2][1] \div M6
                      [] OTHER -> THoba[L - 8][v - 7]
\* The 79 bits between the pitch bits fill these fields exactly.
AllocationExact(L) ==
    {<<TBo[L - 8][i][1], TBo[L - 8][i][2]>> : i \in 1 .. 79}
        = UNION {{<<v, b>> : b \in 0 .. FieldWidth(L, v) - 1} : v \in 1 .. L + 1}

RECURSIVE Fill(_, _, _, _)
Fill(L, d, i, acc) ==
    IF i > 79 THEN acc
    ELSE LET p == TBo[L - 8][i]
         IN Fill(L, d, i + 1, TLCEval([acc EXCEPT ![p[1]] = @ + d[i + 6] * 2 ^ p[2]]))
Fields(L, d) == Fill(L, d, 1, TLCEval([v \in 1 .. 58 |-> 0]))

Voicing(L, f) == [l \in 1 .. L |->
    LET K == VoicingBits(L)
        g == (l - 1) \div 3
        k == IF K - 1 - g > 0 THEN K - 1 - g ELSE 0
    IN Bit(f[1], k)]

\* uniform quantiser: step * (code - 2^(bits-1) + 1/2)
Uniform(step, code, bits) == SFMul(step, SFFrac(2 * (code - 2 ^ (bits - 1)) + 1, 2))
Gain(L, f) == [i \in 1 .. 6 |-> IF i = 1 THEN GainLevel[f[2] + 1]
                                ELSE Uniform(SFFrac(TBa[L - 8][i - 1][2], M6), f[i + 1], TBa[L - 8][i - 1][1] \div M6)]
\* inverse DCT of length n: sum over k of a_k c_k cos(pi (k-1) (j - 1/2) / n)
Cosines(n) == TLCEval([j \in 1 .. n |-> TLCEval(VOsc(Zero, SFDiv(SFMul(SFPi, SFFrac(2 * j - 1, 2)), SFInt(n)), 0, n))])
CosTab == TLCEval([n \in 1 .. 17 |-> Cosines(n)])
Idct(c) == LET n == Len(c)
               w == TLCEval([k \in 1 .. n |-> IF k = 1 THEN c[k] ELSE SFScalb(c[k], 1)])
           IN [j \in 1 .. n |-> VDot(w, CosTab[n][j])]

RECURSIVE BlockStart(_, _)
\* number of higher-order coefficients before block i
BlockStart(L, i) == IF i = 1 THEN 0 ELSE BlockStart(L, i - 1) + TJi[L - 8][i - 1] - 1
Block(L, f, R, i) == [k \in 1 .. TJi[L - 8][i] |->
    IF k = 1 THEN R[i]
    ELSE LET v == 8 + BlockStart(L, i) + (k - 2)
             B == FieldWidth(L, v)
         IN IF B = 0 THEN Zero ELSE Uniform(SFMul(QStep[B], SDev[k - 1]), f[v], B)]
Residual(L, f) ==
    LET R == TLCEval(Idct(TLCEval(Gain(L, f))))
        c(i) == Idct(TLCEval(Block(L, f, R, i)))
    IN c(1) \o c(2) \o c(3) \o c(4) \o c(5) \o c(6)

Rho(L) == CASE L <= 15 -> SFFrac(2, 5) [] L > 15 /\ L <= 24 -> SFFrac(3 * L - 5, 100) [] OTHER -> SFFrac(7, 10)
\* previous log amplitude at band k (held constant above the last band)
PrevAt(prev, k) == IF k <= prev.L THEN prev.log2[k + 1] ELSE prev.log2[prev.L + 1]
\* linear interpolation of the previous spectrum at l * Lprev / L
Interp(prev, L, l) ==
    LET k == (prev.L * l) \div L
        r == (prev.L * l) % L
    IN IF r = 0 THEN PrevAt(prev, k)
       ELSE SFAdd(SFMul(SFFrac(L - r, L), PrevAt(prev, k)), SFMul(SFFrac(r, L), PrevAt(prev, k + 1)))
Predict(rho, T, L, prev) ==
    LET p == TLCEval([l \in 1 .. L |-> Interp(prev, L, l)])
        mean == SFDiv(VSum(p), SFInt(L))
    IN [l \in 1 .. L |-> SFAdd(T[l], SFMul(rho, SFSub(p[l], mean)))]

Decode(d, prev) ==
    LET b0 == PitchCode(d)
        L == BandCount(b0)
        f == TLCEval(Fields(L, d))
    IN [b0 |-> b0, L |-> L, K |-> VoicingBits(L), w0 |-> Pitch(b0), Vl |-> Voicing(L, f),
        log2 |-> TLCEval(Predict(Rho(L), TLCEval(Residual(L, f)), L, prev))]
=============================================================================
