----------------------------------- MODULE Noise -----------------------------------
(***************************************************************************)
(* The two noise generators.                                               *)
(*  Comfort noise: java.util.Random (48-bit linear congruential generator, *)
(*  multiplier 5DEECE66D hex, increment 11), 24-bit floats, uniform in     *)
(*  [-1, 1) times 0.003 of full scale.  A 48-bit state is four 12-bit      *)
(*  limbs, least significant first.                                        *)
(*  Unvoiced noise: u' = (171 u + 11213) mod 53125.                        *)
(***************************************************************************)
EXTENDS SF, TLC
B12 == 4096
Mult == <<1645, 3790, 1502>>            \* 0x66D, 0xECE, 0x5DE
\* limbs of the 32-bit seed given as two 16-bit halves
Limbs(hi, lo) == <<lo % B12, (lo \div B12) + (hi % 256) * 16, hi \div 256, 0>>
ZeroSeed == <<27941, 13691>>            \* 0x6d25357b: what a zero seed stands for
DefaultSeed == <<4660, 22136>>          \* 0x12345678: a thread that was never seeded
Scrambled(s) == LET p == IF s = <<0, 0>> THEN ZeroSeed ELSE s
                    x == Limbs(p[1], p[2])
                IN <<XorI(x[1], Mult[1]), XorI(x[2], Mult[2]), XorI(x[3], Mult[3]), x[4]>>
JavaNext(x) ==
    LET p0 == x[1] * Mult[1] + 11
        p1 == x[2] * Mult[1] + x[1] * Mult[2] + p0 \div B12
        p2 == x[3] * Mult[1] + x[2] * Mult[2] + x[1] * Mult[3] + p1 \div B12
        p3 == x[4] * Mult[1] + x[3] * Mult[2] + x[2] * Mult[3] + p2 \div B12
    IN <<p0 % B12, p1 % B12, p2 % B12, p3 % B12>>
RECURSIVE JavaSkip(_, _)
JavaSkip(x, n) == IF n = 0 THEN x ELSE JavaSkip(TLCEval(JavaNext(x)), n - 1)
\* n steps at once: the step is x -> a x + c modulo 2^48, and so is every power of it
Times(a, x) ==
    LET p0 == a[1] * x[1]
        p1 == a[1] * x[2] + a[2] * x[1] + p0 \div B12
        p2 == a[1] * x[3] + a[2] * x[2] + a[3] * x[1] + p1 \div B12
        p3 == a[1] * x[4] + a[2] * x[3] + a[3] * x[2] + a[4] * x[1] + p2 \div B12
    IN <<p0 % B12, p1 % B12, p2 % B12, p3 % B12>>
Plus(a, x) ==
    LET p0 == a[1] + x[1]
        p1 == a[2] + x[2] + p0 \div B12
        p2 == a[3] + x[3] + p1 \div B12
        p3 == a[4] + x[4] + p2 \div B12
    IN <<p0 % B12, p1 % B12, p2 % B12, p3 % B12>>
RECURSIVE JavaPower(_)
JavaPower(n) ==
    CASE n = 0 -> [a |-> <<1, 0, 0, 0>>, c |-> <<0, 0, 0, 0>>]
      [] n = 1 -> [a |-> Mult \o <<0>>, c |-> <<11, 0, 0, 0>>]
      [] OTHER -> LET h == TLCEval(JavaPower(n \div 2))
                      d == TLCEval([a |-> Times(h.a, h.a), c |-> Plus(Times(h.a, h.c), h.c)])
                  IN IF n % 2 = 0 THEN d
                     ELSE [a |-> Times(Mult \o <<0>>, d.a), c |-> Plus(Times(Mult \o <<0>>, d.c), <<11, 0, 0, 0>>)]
JavaJump(x, n) == LET p == TLCEval(JavaPower(n)) IN Plus(Times(p.a, x), p.c)
ASSUME \A n \in {0, 1, 2, 3, 7, 160, 161} : \A s \in {ZeroSeed, DefaultSeed, <<1, 65535>>} :
          JavaJump(Scrambled(s), n) = JavaSkip(Scrambled(s), n)
Gain == SFDiv(SFMul(SFFrac(3, 1000), SFInt(32767)), SFInt(7))
Sample(x) == SFMul(SFScalb(SFInt(2 * (x[4] * B12 + x[3]) - 16777216), -24), Gain)
RECURSIVE JavaFrame(_, _)
\* the next n samples
JavaFrame(x, n) == IF n = 0 THEN <<>> ELSE LET y == TLCEval(JavaNext(x)) IN <<Sample(y)>> \o JavaFrame(y, n - 1)

(* ------------------------- unvoiced noise ------------------------------ *)
LcgNext(u) == (171 * u + 11213) % 53125
RECURSIVE LcgRun(_, _)
\* the next n values, starting with u itself
LcgRun(u, n) == IF n = 0 THEN <<>> ELSE <<u>> \o LcgRun(LcgNext(u), n - 1)
RECURSIVE LcgSkip(_, _)
LcgSkip(u, n) == IF n = 0 THEN u ELSE LcgSkip(LcgNext(u), n - 1)
=============================================================================
