------------------------------------- MODULE Pcm -------------------------------------
(* Output samples: the soft-clip level and the conversion of a float sample to 16 bits. *)
EXTENDS SF, TLC
Top == SFMul(SFInt(32767), SFFrac(95, 100))        \* 31128.65
ClipLevel == SFDiv(Top, SFInt(7))
Slack == SFAdd(SFInt(1), SFFrac(1, 4000000))
InRange(xs) == SFLe(VMaxAbs(xs), SFMul(ClipLevel, Slack))
Limit == SFTrunc(Top)                              \* 31128
\* seven times the sample, limited, fraction dropped; a product within single-precision rounding of an integer may
\* fall on either side of it
Round(y) == SFMul(SFAbs(y), SFScalb(SFInt(1), -23))
Cut(y) == LET n == IF SFLt(y, SFNeg(Top)) THEN -Limit ELSE IF SFLt(Top, y) THEN Limit ELSE SFTrunc(y) IN n
Allowed(x) == LET y == SFMul(SFInt(7), x) IN {Cut(y), Cut(SFAdd(y, Round(y))), Cut(SFSub(y, Round(y)))}
\* smallest sample that converts to n or more, n = 1 .. Limit
From(n) == SFFrac(n, 7)
=============================================================================
