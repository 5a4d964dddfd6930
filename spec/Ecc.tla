---------------------------------- MODULE Ecc ----------------------------------
(***************************************************************************)
(* The two block codes of the vocoder family, stated independently of the  *)
(* code's tables: Golay(23,12) as the perfect cyclic code of its generator *)
(* polynomial, the Hamming codes as the null spaces of their parity checks.*)
(* Words are integers; bit 0 is the last (parity) position.                *)
(***************************************************************************)
EXTENDS SF, FiniteSets, SequencesExt, TLC

LOCAL Shl(w, k) == w * (2 ^ k)
LOCAL Shr(w, k) == w \div (2 ^ k)

(* ------------------------------ Golay(23,12) --------------------------- *)
GolayPoly == 3189      \* x^11+x^10+x^6+x^5+x^4+x^2+1

RECURSIVE GolayRem(_, _)
\* remainder of the polynomial w (degree <= top) modulo GolayPoly
GolayRem(w, top) ==
    IF top < 11 THEN w
    ELSE GolayRem(IF Bit(w, top) = 1 THEN XorI(w, Shl(GolayPoly, top - 11)) ELSE w, top - 1)

GolaySyn(w) == GolayRem(w, 22)
GolayEncode(d) == Shl(d, 11) + GolaySyn(Shl(d, 11))
GolayData(w) == Shr(w, 11)

\* The correctable error patterns: at most three of the 23 positions.
Positions == 0 .. 22
GolayErrorSet == TLCEval(
    {0} \cup {2 ^ i : i \in Positions}
        \cup {2 ^ p[1] + 2 ^ p[2] : p \in {q \in Positions \X Positions : q[1] < q[2]}}
        \cup {2 ^ p[1] + 2 ^ p[2] + 2 ^ p[3] : p \in {q \in Positions \X Positions \X Positions : q[1] < q[2] /\ q[2] < q[3]}})

\* <<syndrome, leader>> pairs in syndrome order.
LOCAL GolayPairs == TLCEval(SetToSortSeq({<<GolaySyn(e), e>> : e \in GolayErrorSet}, LAMBDA a, b: a[1] < b[1]))
GolayLeaderTable == TLCEval([i \in 1 .. Len(GolayPairs) |-> GolayPairs[i][2]])
GolayLeader(w) == GolayLeaderTable[GolaySyn(w) + 1]

\* Perfect code: every syndrome has exactly one pattern of weight <= 3, so every word lies within
\* distance three of exactly one codeword.
GolayPerfect == /\ Cardinality(GolayErrorSet) = 2048
                /\ Len(GolayPairs) = 2048
                /\ \A i \in 1 .. 2048 : GolayPairs[i][1] = i - 1
\* The code is systematic and its codewords are exactly the words of syndrome zero.
GolaySystematic == \A d \in {0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4095, 2730} :
                      GolaySyn(GolayEncode(d)) = 0 /\ GolayData(GolayEncode(d)) = d

GolayFix(w) == XorI(w, GolayLeader(w))                  \* nearest codeword
GolayDecode(w) == GolayData(GolayFix(w))                \* its data bits
GolayErrs(w) == PopI(GolayData(GolayLeader(w)))         \* data positions changed

(* ------------------------------ Hamming(15,11) ------------------------- *)
\* Parity checks (rows) of the two arrangements.
HamStd  == <<32520, 30948, 26322, 21937>>     \* 0x7f08 0x78e4 0x66d2 0x55b1
Ham7100 == <<31432, 15716, 7858, 30097>>      \* 0x7ac8 0x3d64 0x1eb2 0x7591
HamSyn(H, w) == (PopI(AndI(H[1], w)) % 2) + 2 * (PopI(AndI(H[2], w)) % 2)
                + 4 * (PopI(AndI(H[3], w)) % 2) + 8 * (PopI(AndI(H[4], w)) % 2)
LOCAL HamTable(H) == TLCEval([s \in 1 .. 15 |-> 2 ^ (CHOOSE k \in 0 .. 14 : HamSyn(H, 2 ^ k) = s)])
LOCAL TStd == HamTable(HamStd)
LOCAL T7100 == HamTable(Ham7100)
\* Perfect: the fifteen columns are the fifteen non-zero syndromes.
HamPerfect(H) == {HamSyn(H, 2 ^ k) : k \in 0 .. 14} = 1 .. 15
HamFixT(H, T, w) == LET s == HamSyn(H, w) IN IF s = 0 THEN w ELSE XorI(w, T[s])
HamFix(std, w) == IF std THEN HamFixT(HamStd, TStd, w) ELSE HamFixT(Ham7100, T7100, w)
HamErrs(std, w) == IF HamSyn(IF std THEN HamStd ELSE Ham7100, w) = 0 THEN 0 ELSE 1
\* Encoding: the codeword whose upper eleven bits are d.
LOCAL HamCand(H, d) == CHOOSE p \in 0 .. 15 : HamSyn(H, d * 16 + p) = 0
HamEncode(std, d) == d * 16 + HamCand(IF std THEN HamStd ELSE Ham7100, d)
=============================================================================
