---------------------------------- MODULE Configs ----------------------------------
(***************************************************************************)
(* One codec, several builds.  A build is a set of options; the only       *)
(* option that may be heard is "no tones", which renders tone frames       *)
(* silently.  Every other option may move a result by rounding only.       *)
(*                                                                         *)
(* A component of a result is recorded once per distinct content:          *)
(*   c.u   the distinct contents, the reference build's first              *)
(*   c.at  for each build, the position of its content in c.u              *)
(***************************************************************************)
EXTENDS Synth, Smooth
\* what a frame with outcome o sounds like on a build with or without tones
Heard(o, tones) == IF o.audio = "tone" /\ ~tones THEN "silence" ELSE o.audio

Others(c, K) == {c.at[k] : k \in K} \ {1}
Alike(c, K) == Others(c, K) = {}
\* numbers that agree up to at + rt * size
NearBits(a, b, at, rt) == Len(a) = Len(b) /\ VFinite(a) /\ VFinite(b) /\ VNear(VBits(a), VBits(b), at, rt)
Close(c, K, at, rt) == \A i \in Others(c, K) : NearBits(c.u[i], c.u[1], at, rt)
\* numbers that agree up to a tolerance for the whole sequence
CloseAbs(c, K, tol) == \A i \in Others(c, K) : VFinite(c.u[i]) /\ VFinite(c.u[1]) /\ VNear(VBits(c.u[i]), VBits(c.u[1]), tol, SFInt(0))
CloseInts(c, K, n) == \A i \in Others(c, K) : \A j \in 1 .. Len(c.u[1]) : c.u[i][j] - c.u[1][j] \in -n .. n
AngleTol(x) == SFAdd(SFFrac(1, 1000), SFScalb(VMaxAbs(x), -19))
CloseAngles(c, K) == \A i \in Others(c, K) :
    VFinite(c.u[i]) /\ VFinite(c.u[1]) /\
    LET a == TLCEval(VBits(c.u[i]))
        b == TLCEval(VBits(c.u[1]))
        t == AngleTol(b)
    IN \A j \in 1 .. Len(b) : SFNearAngle(a[j], b[j], t)
\* positions in an oscillator's cycle, counted in 2^-32 cycles
WholeCycle == SFScalb(SFInt(1), 32)
CloseCycles(c, K) == \A i \in Others(c, K) : \A j \in 1 .. Len(c.u[1]) :
    LET d == SFAbs(SFSub(SFInt(c.u[i][j]), SFInt(c.u[1][j]))) IN SFLe(d, SFScalb(SFInt(1), 16)) \/ SFLe(SFSub(WholeCycle, d), SFScalb(SFInt(1), 16))

\* the moments cannot tell the predicted spectrum in single precision
IllConditioned(m, w0) ==
    LET m2 == TLCEval(VMul(m, m))
        cs == TLCEval(VOsc(Zero, w0, 1, Len(m)))
        r0 == VSum(m2)
        r == IF r0 = Zero THEN SFInt(1) ELSE SFDiv(VDot(m2, cs), r0)
        small(x) == SFLe(x, SFFrac(1, 100))
    IN \/ small(SFSub(SFInt(1), SFMul(r, r)))
       \/ \E l \in 1 .. Len(m) : small(SFAdd(SFSub(SFInt(1), SFMul(SFScalb(r, 1), cs[l])), SFMul(r, r)))
\* every weight is within [1/2, 6/5] whatever the moments, and the rescaling undoes at most that range
Ratio == SFInt(6)
SameRange(a, b) == \A l \in 1 .. Len(a) : SFLe(a[l], SFMul(Ratio, b[l])) /\ SFLe(b[l], SFMul(Ratio, a[l]))
AmpsAlike(c, K, m, w0) ==
    \/ Close(c, K, SFFrac(1, 100000), SFFrac(1, 2000))
    \/ /\ IllConditioned(m, w0)
       /\ \A i \in Others(c, K) : Len(c.u[i]) = Len(c.u[1]) /\ VFinite(c.u[i]) /\ SameRange(VBits(c.u[i]), VBits(c.u[1]))
\* voicing may differ only in a band that smoothing decides, at the threshold
Deciding(rate, total, c4, energy, m) ==
    {l \in 1 .. Len(m) : \E vm \in Promotions(rate, total, c4, energy) : vm # <<>> /\ SFNear(m[l], vm[1], Zero, SFFrac(1, 1000))}
VoicingAlike(c, K, D) == \A i \in Others(c, K) : Len(c.u[i]) = Len(c.u[1]) /\ \A l \in 1 .. Len(c.u[1]) : c.u[i][l] = c.u[1][l] \/ l \in D
\* how far rounding may move a sample of a frame
SampleTol(p, c, phi0, phi1, pcm) ==
    SFAdd(SFAdd(SFFrac(1, 100), SFMul(SFFrac(1, 10000), VMaxAbs(pcm))),
          SFMul(SFAdd(SFFrac(1, 2000), SFScalb(SFMax(VMaxAbs(phi0), VMaxAbs(phi1)), -21)), SFAdd(VSum(p.m), VSum(c.m))))
\* a jump of the rules under rounding: which oscillator a band gets, which band a bin belongs to
Jumpy(p, c, phi0, phi1) == Unclear(p, c, phi0, phi1) \/ EdgesUnclear(c)
=============================================================================
