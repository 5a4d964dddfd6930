---------------------------------- MODULE Enhance ----------------------------------
(***************************************************************************)
(* Spectral amplitude enhancement (equations 105-111 of the vocoder): each *)
(* band above the lowest eighth is weighted by how its amplitude compares  *)
(* with what the two spectral moments R0, R1 predict at its frequency, the *)
(* weight limited to [1/2, 6/5], then all bands are rescaled to the energy *)
(* R0.  The operators below give, per band, the interval of weights that   *)
(* single-precision evaluation may reach: a point when the problem is well *)
(* conditioned, the whole range [1/2, 6/5] when the moments cannot tell    *)
(* the prediction (a line spectrum, r = +-1).                              *)
(***************************************************************************)
EXTENDS SF, TLC
LOCAL One == SFInt(1)
Half == SFScalb(One, -1)
Cap == SFFrac(6, 5)
Clamp(x) == SFMax(Half, SFMin(x, Cap))
Fourth(x) == SFSqrt(SFSqrt(x))
Moments(m, w0) ==
    LET m2 == VMul(m, m)
        c == VOsc(Zero, w0, 1, Len(m))
        r0 == VSum(m2)
        r1 == VDot(m2, c)
    IN [r0 |-> r0, r |-> IF r0 = Zero THEN One ELSE SFDiv(r1, r0), cos |-> c]
\* rounding of the moments' ratio and of the cosines in the code
Eps == SFFrac(4, 1000000)
Weight(m, l, L, w0, mo) ==          \* <<lowest, highest>> admissible weight of band l
    LET r == mo.r
        d == SFMul(SFSub(One, r), SFAdd(One, r))
        num == SFAdd(SFSub(One, SFMul(SFScalb(r, 1), mo.cos[l])), SFMul(r, r))
    IN CASE 8 * l <= L \/ m[l] = Zero \/ SFLe(w0, Zero) -> <<One, One>>
         [] SFLe(d, SFScalb(Eps, 4)) \/ SFLe(num, SFScalb(Eps, 4)) -> <<Half, Cap>>
         [] OTHER ->
            LET w == SFMul(SFSqrt(m[l]), Fourth(SFDiv(SFMul(SFMul(SFFrac(96, 100), SFPi), num), SFMul(SFMul(w0, mo.r0), d))))
                t == SFAdd(SFFrac(1, 20000), SFAdd(SFDiv(Eps, d), SFDiv(Eps, num)))
            IN <<Clamp(SFMul(w, SFSub(One, t))), Clamp(SFMul(w, SFAdd(One, t)))>>
\* <<lowest, highest>> admissible amplitudes after weighting, and the bounds of the common rescaling
Weighted(m, w0) ==
    LET L == Len(m)
        mo == TLCEval(Moments(m, w0))
        ws == TLCEval([l \in 1 .. L |-> Weight(m, l, L, w0, mo)])
        lo == VMul(m, [l \in 1 .. L |-> ws[l][1]])
        hi == VMul(m, [l \in 1 .. L |-> ws[l][2]])
        g(x) == IF x = Zero THEN One ELSE SFSqrt(SFDiv(mo.r0, x))
    IN [lo |-> lo, hi |-> hi, glo |-> g(VDot(hi, hi)), ghi |-> g(VDot(lo, lo)), r0 |-> mo.r0]
Tol == SFFrac(1, 50000)
InRange(x, m, v, l) == /\ SFLe(SFMul(SFMul(v.glo, v.lo[l]), SFSub(One, Tol)), x)
                       /\ SFLe(x, SFMul(SFMul(v.ghi, v.hi[l]), SFAdd(One, Tol)))
=============================================================================
