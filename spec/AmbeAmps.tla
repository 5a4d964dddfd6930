-------------------------------- MODULE AmbeAmps --------------------------------
(* What the two AMBE codecs share: voicing lookup, spectral amplitudes from gain, PRBA vectors, higher-order         *)
(* coefficients and the previous model [L, log2 (bands 0..56), gamma]. T is the record of the codec's tables.       *)
EXTENDS SF, TLC
LOCAL M6 == 1000000
LOCAL Row(tab, i) == TLCEval([j \in 1 .. Len(tab[i + 1]) |-> SFFrac(tab[i + 1][j], M6)])
LOCAL Cosines(n) == TLCEval([j \in 1 .. n |-> TLCEval(VOsc(Zero, SFDiv(SFMul(SFPi, SFFrac(2 * j - 1, 2)), SFInt(n)), 0, n))])
LOCAL CosTab == TLCEval([n \in 1 .. 17 |-> Cosines(n)])
LOCAL Idct(c) == LET n == Len(c)
                     w == TLCEval([k \in 1 .. n |-> IF k = 1 THEN c[k] ELSE SFScalb(c[k], 1)])
                 IN [j \in 1 .. n |-> VDot(w, CosTab[n][j])]
RECURSIVE Word(_, _, _)
\* the integer spelled by the bits at the (0-based) positions ps, first one most significant
Word(d, ps, i) == IF i = 0 THEN 0 ELSE Word(d, ps, i - 1) * 2 + d[ps[i] + 1]
Field(d, ps) == Word(d, ps, Len(ps))

\* Voicing: band l takes entry floor(16 l f0) of the vector; the two entries next to a boundary are both
\* acceptable when 16 l f0 is within rounding of an integer.
VoicingOk(vec, f0, Vl) == \A l \in 1 .. Len(Vl) :
    LET x == SFMul(SFInt(16 * l), f0)
        eps == SFFrac(1, 100000)
    IN Vl[l] \in {vec[SFFloor(SFSub(x, eps)) + 1], vec[SFFloor(SFAdd(x, eps)) + 1]}
VoicingInRange(L, f0) == SFFloor(SFMul(SFInt(16 * L), f0)) <= 7

\* f: [g2, b3, b4, b5, b6, b7, b8] codes
Blocks(T, L) == T.lmprbl[L + 1]
LOCAL Pair(R, i) == <<SFScalb(SFAdd(R[2 * i - 1], R[2 * i]), -1),
                      SFMul(SFDiv(SFInt(1), SFSqrt(SFInt(8))), SFSub(R[2 * i - 1], R[2 * i]))>>
Residual(T, L, f) ==
    LET p24 == Row(T.prba24, f.b3)
        p58 == Row(T.prba58, f.b4)
        R == TLCEval(Idct(TLCEval(<<Zero>> \o p24 \o p58)))
        hoc == <<Row(T.hoc5, f.b5), Row(T.hoc6, f.b6), Row(T.hoc7, f.b7), Row(T.hoc8, f.b8)>>
        c(i) == LET J == Blocks(T, L)[i]
                    two == TLCEval(Pair(R, i))
                IN Idct(TLCEval([k \in 1 .. J |-> IF k <= 2 THEN two[k] ELSE IF k <= 6 THEN hoc[i][k - 2] ELSE Zero]))
    IN c(1) \o c(2) \o c(3) \o c(4)
PrevAt(prev, k) == IF k = 0 THEN prev.log2[2] ELSE IF k <= prev.L THEN prev.log2[k + 1] ELSE prev.log2[prev.L + 1]
Interp(prev, L, l) ==
    LET k == (prev.L * l) \div L
        r == (prev.L * l) % L
    IN IF r = 0 THEN PrevAt(prev, k)
       ELSE SFAdd(SFMul(SFFrac(L - r, L), PrevAt(prev, k)), SFMul(SFFrac(r, L), PrevAt(prev, k + 1)))
NewGain(T, f, prev) == SFAdd(SFFrac(T.dg[f.g2 + 1], M6), SFScalb(prev.gamma, -1))
\* log amplitudes of the L bands
Log2Amps(T, L, f, prev) ==
    LET t == TLCEval(Residual(T, L, f))
        p == TLCEval([l \in 1 .. L |-> Interp(prev, L, l)])
        n == SFInt(L)
        pm == SFDiv(VSum(p), n)
        off == SFSub(SFSub(NewGain(T, f, prev), SFScalb(SFLog2(n), -1)), SFDiv(VSum(t), n))
        rho == SFFrac(13, 20)
    IN [l \in 1 .. L |-> SFAdd(SFAdd(t[l], off), SFMul(rho, SFSub(p[l], pm)))]
\* amplitude of a band of log amplitude x
Amp(x, v, w0) == IF v = 1 THEN SFExp2(x) ELSE SFMul(SFDiv(SFFrac(2046, 10000), SFSqrt(w0)), SFExp2(x))
=============================================================================
