---------------------------------- MODULE SF ----------------------------------
(***************************************************************************)
(* Reals for the vocoder model: software floating point.                   *)
(*                                                                         *)
(* A number is a pair <<m, e>> that stands for m * 2^e, normalised so that *)
(* m = 0 /\ e = 0, or 2^29 <= |m| < 2^30.  Every operation returns the     *)
(* exact (or, for the transcendental ones, a 2^-50-accurate) result        *)
(* rounded to such a pair, so a single operation is accurate to 2^-30 and  *)
(* the model is two hundred times finer than the 24-bit floats of the code *)
(* it is compared with.                                                    *)
(*                                                                         *)
(* TLC's integers have 32 bits, so TLC cannot evaluate these definitions   *)
(* itself; java/SF.java overrides them one by one (same operator names).   *)
(* The TLA+ bodies below are the meaning of the overrides.  Nothing about  *)
(* the vocoder is in the Java file: only arithmetic.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL P29 == 536870912
LOCAL P30 == 1073741824

LOCAL Abs(n) == IF n < 0 THEN -n ELSE n

RECURSIVE SFNorm(_, _)
\* The normalised pair for m * 2^e (round half up; m is an unbounded integer).
SFNorm(m, e) == CASE m = 0 -> <<0, 0>>
                  [] m # 0 /\ Abs(m) < P29 -> SFNorm(2 * m, e - 1)
                  [] m # 0 /\ Abs(m) >= P30 -> SFNorm((m + 1) \div 2, e + 1)
                  [] OTHER -> <<m, e>>

LOCAL Pow2(n) == 2 ^ n

Zero == <<0, 0>>
SFInt(n) == SFNorm(n, 0)
SFNeg(a) == <<-a[1], a[2]>>
SFAbs(a) == <<Abs(a[1]), a[2]>>
SFAdd(a, b) == LET lo == IF a[2] < b[2] THEN a[2] ELSE b[2]
               IN SFNorm(a[1] * Pow2(a[2] - lo) + b[1] * Pow2(b[2] - lo), lo)
SFSub(a, b) == SFAdd(a, SFNeg(b))
SFMul(a, b) == SFNorm(a[1] * b[1], a[2] + b[2])
SFDiv(a, b) == SFNorm((a[1] * Pow2(62) * (IF b[1] < 0 THEN -1 ELSE 1)) \div Abs(b[1]), a[2] - b[2] - 62)
SFFrac(p, q) == SFDiv(SFInt(p), SFInt(q))
SFScalb(a, k) == IF a[1] = 0 THEN a ELSE <<a[1], a[2] + k>>
SFLt(a, b) == SFSub(a, b)[1] < 0
SFLe(a, b) == SFSub(a, b)[1] <= 0
SFMax(a, b) == IF SFLt(a, b) THEN b ELSE a
SFMin(a, b) == IF SFLt(a, b) THEN a ELSE b
\* Largest integer <= a;  integer part (toward zero).
SFFloor(a) == IF a[2] >= 0 THEN a[1] * Pow2(a[2]) ELSE a[1] \div Pow2(-a[2])
SFTrunc(a) == IF a[1] < 0 THEN -SFFloor(SFNeg(a)) ELSE SFFloor(a)
\* Square root: the rounded r with r^2 <= a < (r + 2^-60 ulp)^2.
SFSqrt(a) == IF a[1] <= 0 THEN Zero
             ELSE LET k == IF a[2] % 2 = 0 THEN 60 ELSE 61
                      n == a[1] * Pow2(k)
                      r == CHOOSE x \in 0 .. Pow2(46) : x * x <= n /\ n < (x + 1) * (x + 1)
                  IN SFNorm(r, (a[2] - k) \div 2)

\* Power series (exact rational partial sums, enough terms for 2^-50).
RECURSIVE LOCAL_Series(_, _, _, _, _)
\* sum over k of term_k with term_{k+1} = term_k * num / den(k)
LOCAL_Series(term, num, kind, k, acc) ==
    IF k > 60 THEN acc
    ELSE LET d == CASE kind = "exp" -> SFInt(k + 1)
                    [] kind = "cos" -> SFInt((2 * k + 1) * (2 * k + 2))
                    [] kind = "sin" -> SFInt((2 * k + 2) * (2 * k + 3))
             nt == SFDiv(SFMul(term, num), d)
         IN LOCAL_Series(nt, num, kind, k + 1, SFAdd(acc, nt))
SFPi == <<843314857, -28>>
RECURSIVE SFExp(_)
SFExp(a) == IF SFLt(SFInt(1), SFAbs(a))
            THEN LET h == SFExp(SFScalb(a, -1)) IN SFMul(h, h)
            ELSE LOCAL_Series(SFInt(1), a, "exp", 0, SFInt(1))
Ln2 == <<744261118, -30>>
SFExp2(a) == SFExp(SFMul(a, Ln2))
LOCAL Red(a) == SFSub(a, SFMul(SFInt(SFFloor(SFDiv(a, SFScalb(SFPi, 1)))), SFScalb(SFPi, 1)))
SFCos(a) == LOCAL_Series(SFInt(1), SFNeg(SFMul(Red(a), Red(a))), "cos", 0, SFInt(1))
SFSin(a) == LOCAL_Series(Red(a), SFNeg(SFMul(Red(a), Red(a))), "sin", 0, Red(a))
\* Logarithm as the (unique) inverse of the exponential.
SFLog2(a) == CHOOSE y \in {<<m, e>> : m \in -P30 .. P30, e \in -60 .. 10} : SFSub(SFExp2(y), a)[1] = 0

(* IEEE single-precision words, as the traces record them (signed 32-bit). *)
SFIsFinite(w) == LET u == IF w < 0 THEN (w + 2147483647) + 1 ELSE w
                 IN (u \div 8388608) # 255
SFFromBits(w) == LET neg == w < 0
                     u == IF neg THEN (w + 2147483647) + 1 ELSE w
                     ex == u \div 8388608
                     fr == u % 8388608
                     m == IF ex = 0 THEN fr ELSE fr + 8388608
                     e == (IF ex = 0 THEN 1 ELSE ex) - 150
                 IN IF ~SFIsFinite(w) THEN <<(IF neg THEN -P29 ELSE P29), 1000>>
                    ELSE SFNorm(IF neg THEN -m ELSE m, e)
\* |a - b| <= at + rt * max(|a|, |b|)
SFNear(a, b, at, rt) == SFLe(SFAbs(SFSub(a, b)), SFAdd(at, SFMul(rt, SFMax(SFAbs(a), SFAbs(b)))))
\* distance of a - b from the nearest multiple of 2*pi is at most at
SFNearAngle(a, b, at) ==
    LET d == Red(SFSub(a, b)) IN SFLe(d, at) \/ SFLe(SFSub(SFScalb(SFPi, 1), d), at)

(* Vectors (sequences of numbers). *)
VBits(ws) == [i \in 1 .. Len(ws) |-> SFFromBits(ws[i])]
VFinite(ws) == \A i \in 1 .. Len(ws) : SFIsFinite(ws[i])
VAdd(a, b) == [i \in 1 .. Len(a) |-> SFAdd(a[i], b[i])]
VSub(a, b) == [i \in 1 .. Len(a) |-> SFSub(a[i], b[i])]
VMul(a, b) == [i \in 1 .. Len(a) |-> SFMul(a[i], b[i])]
VScale(s, a) == [i \in 1 .. Len(a) |-> SFMul(s, a[i])]
RECURSIVE VSumTo(_, _)
VSumTo(a, n) == IF n = 0 THEN Zero ELSE SFAdd(VSumTo(a, n - 1), a[n])
VSum(a) == VSumTo(a, Len(a))
VDot(a, b) == VSum(VMul(a, b))
\* << cos(ph + st * k) : k = k0 .. k0 + n - 1 >>
VOsc(ph, st, k0, n) == [i \in 1 .. n |-> SFCos(SFAdd(ph, SFMul(st, SFInt(k0 + i - 1))))]
\* << cos(ph + a * k + b * k^2) : k = 0 .. n - 1 >>
VQuadOsc(ph, a, b, n) == [i \in 1 .. n |->
    SFCos(SFAdd(ph, SFAdd(SFMul(a, SFInt(i - 1)), SFMul(b, SFInt((i - 1) * (i - 1))))))]
VMaxAbs(a) == LET S == {SFAbs(a[i]) : i \in 1 .. Len(a)} \cup {Zero}
              IN CHOOSE x \in S : \A y \in S : SFLe(y, x)
\* every |a[i] - b[i]| <= at + rt * max(|a[i]|, |b[i]|)
VNear(a, b, at, rt) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : SFNear(a[i], b[i], at, rt)
\* Real part of the DFT-style correlations of x with e^{-j 2 pi k n / N}, n = 0..N-1
VDftRe(x, k, N) == VDot(x, [i \in 1 .. Len(x) |-> SFCos(SFDiv(SFMul(SFScalb(SFPi, 1), SFInt(k * (i - 1))), SFInt(N)))])
VDftIm(x, k, N) == SFNeg(VDot(x, [i \in 1 .. Len(x) |-> SFSin(SFDiv(SFMul(SFScalb(SFPi, 1), SFInt(k * (i - 1))), SFInt(N)))]))
\* ... for every k in 0 .. N/2 (position k + 1)
VDftAllRe(x, N) == [j \in 1 .. (N \div 2 + 1) |-> VDftRe(x, j - 1, N)]
VDftAllIm(x, N) == [j \in 1 .. (N \div 2 + 1) |-> VDftIm(x, j - 1, N)]

(* Wide integer arithmetic (products beyond 32 bits). *)
MulMod(a, b, c, m) == (a * b + c) % m        \* (a*b + c) mod m
AddWrap32(a, b) == ((a + b + (2147483647 + 1)) % (65536 * 65536)) - (2147483647 + 1)
Bit(n, k) == (n \div 2^k) % 2
XorI(a, b) == CHOOSE r \in 0 .. 2147483647 : \A k \in 0 .. 30 : Bit(r, k) = (Bit(a, k) + Bit(b, k)) % 2
AndI(a, b) == CHOOSE r \in 0 .. 2147483647 : \A k \in 0 .. 30 : Bit(r, k) = Bit(a, k) * Bit(b, k)
RECURSIVE PopI(_)
PopI(a) == IF a = 0 THEN 0 ELSE (a % 2) + PopI(a \div 2)
=============================================================================
