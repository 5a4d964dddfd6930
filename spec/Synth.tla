----------------------------------- MODULE Synth -----------------------------------
(***************************************************************************)
(* Speech synthesis of one 160-sample frame from the current and previous  *)
(* (enhanced, smoothed) models: noise buffer, phase update, voiced         *)
(* oscillators, unvoiced spectrum shaping, overlap-add, limiting.          *)
(* A model here is a record [w0, L, m, v] with m, v sequences of length L. *)
(***************************************************************************)
EXTENDS Noise
LOCAL One == SFInt(1)
Pi2 == SFScalb(SFPi, 1)
N == 160

(* ------------------------------ noise ---------------------------------- *)
DefaultLcg == 3147
\* state: seed (-1 = never started) and the 96 values carried over
NoiseBuffer(seed, ov) == IF seed < 0 THEN [i \in 1 .. 256 |-> 0] ELSE ov \o LcgRun(seed % 53125, 160)
NoiseAfter(seed, ov, buf, first) ==
    IF seed < 0 THEN [seed |-> first, ov |-> [i \in 1 .. 96 |-> 0]]
    ELSE [seed |-> LcgNext(buf[256]), ov |-> SubSeq(buf, 161, 256)]

(* ------------------------------ phases --------------------------------- *)
\* phase advance of band l over the frame
Advance(l, pw, cw) == SFMul(SFAdd(pw, cw), SFInt(80 * l))
Jitter(u, numUv, L) == SFDiv(SFMul(SFInt(numUv), SFSub(SFDiv(SFMul(Pi2, SFInt(u)), SFInt(53125)), SFPi)), SFInt(L))

(* ----------------------- voiced oscillators ---------------------------- *)
WsAt(i) == CASE i <= 55 \/ i >= 265 -> Zero
             [] i < 105 -> SFFrac(i - 55, 50)
             [] i <= 215 -> One
             [] OTHER -> SFFrac(265 - i, 50)
Rise == TLCEval([n \in 1 .. N |-> WsAt(n - 1)])
Fall == TLCEval([n \in 1 .. N |-> WsAt(n - 1 + N)])
Ramp == TLCEval([n \in 1 .. N |-> SFFrac(n - 1, N)])
Ones == TLCEval([n \in 1 .. N |-> One])
Silent == TLCEval([n \in 1 .. N |-> Zero])
Steady(pw, cw) == SFLt(SFAbs(SFSub(cw, pw)), SFMul(SFFrac(1, 10), cw))
SteadyUnclear(pw, cw) == SFNear(SFAbs(SFSub(cw, pw)), SFMul(SFFrac(1, 10), cw), Zero, SFFrac(1, 100000))
Deviation(l, pw, cw, pphi, cphi) == SFSub(SFSub(cphi, pphi), Advance(l, pw, cw))
Wrap(x) == SFSub(x, SFMul(Pi2, SFInt(SFFloor(SFDiv(SFAdd(x, SFPi), Pi2)))))
WrapUnclear(x) == LET y == SFAbs(Wrap(x)) IN SFLt(SFSub(SFPi, y), SFFrac(1, 500))
Interpolated(l, pw, cw, pm, cm, pphi, cphi) ==
    LET dev == Wrap(Deviation(l, pw, cw, pphi, cphi))
        osc == VQuadOsc(pphi, SFAdd(SFMul(pw, SFInt(l)), SFDiv(dev, SFInt(N))), SFDiv(SFMul(SFSub(cw, pw), SFInt(l)), SFInt(2 * N)), N)
        amp == VAdd(VScale(pm, Ones), VScale(SFSub(cm, pm), Ramp))
    IN VScale(SFInt(2), VMul(amp, osc))
FadeOut(l, pw, pm, pphi) == VScale(SFScalb(pm, 1), VMul(Fall, VOsc(pphi, SFMul(pw, SFInt(l)), 0, N)))
FadeIn(l, cw, cm, cphi) == VScale(SFScalb(cm, 1), VMul(Rise, VOsc(cphi, SFMul(cw, SFInt(l)), -N, N)))
\* band l of a model extended to `top` bands: a missing band is voiced with amplitude zero
MAt(x, l) == IF l <= x.L THEN x.m[l] ELSE Zero
VAt(x, l) == IF l <= x.L THEN x.v[l] ELSE 1
Interp(l, p, c) == l < 8 /\ VAt(c, l) = 1 /\ VAt(p, l) = 1 /\ Steady(p.w0, c.w0)
VoicedBand(l, p, c, pphi, cphi) ==
    LET pm == MAt(p, l)
        cm == MAt(c, l)
    IN CASE pm = Zero /\ cm = Zero -> Silent
         [] Interp(l, p, c) -> Interpolated(l, p.w0, c.w0, pm, cm, pphi, cphi)
         [] OTHER -> VAdd(IF VAt(p, l) = 1 THEN FadeOut(l, p.w0, pm, pphi) ELSE Silent,
                          IF VAt(c, l) = 1 THEN FadeIn(l, c.w0, cm, cphi) ELSE Silent)
RECURSIVE VoicedTo(_, _, _, _, _)
VoicedTo(l, p, c, pphi, cphi) ==
    IF l = 0 THEN Silent ELSE TLCEval(VAdd(VoicedTo(l - 1, p, c, pphi, cphi), VoicedBand(l, p, c, pphi[l], cphi[l])))
Voiced(p, c, pphi, cphi) == VoicedTo(IF p.L > c.L THEN p.L ELSE c.L, p, c, pphi, cphi)
\* the pairs for which single precision cannot decide which rule applies
Unclear(p, c, pphi, cphi) ==
    \/ SteadyUnclear(p.w0, c.w0)
    \/ \E l \in 1 .. 7 : l <= (IF p.L > c.L THEN p.L ELSE c.L) /\ Interp(l, p, c) /\ WrapUnclear(Deviation(l, p.w0, c.w0, pphi[l], cphi[l]))

(* -------------------------- unvoiced part ------------------------------ *)
\* the codec's synthesis window as this library tabulates it (the ramp down repeats .300)
WinAt(i) == CASE i <= -105 \/ i >= 105 -> Zero
              [] i < -55 -> SFFrac(105 + i, 50)
              [] i <= 54 -> One
              [] i <= 89 -> SFFrac(104 - i, 50)
              [] OTHER -> SFFrac(105 - i, 50)
Win == TLCEval([j \in 1 .. 256 |-> WinAt(j - 129)])
PerBin == SFDiv(SFInt(256), Pi2)
EdgeAt(l, w0) == SFMul(SFMul(SFSub(SFInt(l), SFFrac(1, 2)), PerBin), w0)
Ceil(x) == -SFFloor(SFNeg(x))
Edge(l, w0) == LET e == Ceil(EdgeAt(l, w0)) IN IF e > 128 THEN 128 ELSE e
EdgeUnclear(l, w0) == LET x == EdgeAt(l, w0)
                          f == SFSub(x, SFInt(SFFloor(x)))
                          eps == SFAdd(SFFrac(1, 1000000), SFMul(x, SFFrac(1, 2000000)))
                      IN SFLt(f, eps) \/ SFLt(SFSub(One, f), eps)
EdgesUnclear(c) == c.w0 # Zero /\ \E l \in 1 .. (c.L + 1) : SFLt(EdgeAt(l, c.w0), SFInt(129)) /\ EdgeUnclear(l, c.w0)
Level == SFFrac(14617696, 100000)
\* squared magnitudes, bins 0..128 at positions 1..129
Mag2(re, im) == VAdd(VMul(re, re), VMul(im, im))
\* first bin of every band (and of the band after the last)
Edges(c) == [l \in 1 .. (c.L + 1) |-> Edge(l, c.w0)]
\* energy of the noise in each band
BandEnergies(c, edges, mag2) == [l \in 1 .. c.L |-> VSum(SubSeq(mag2, edges[l] + 1, edges[l + 1]))]
\* gain of a band: zero unless it is unvoiced, has bins and noise in them
Gain1(m, v, bins, e) ==
    IF v # 0 \/ bins <= 0 \/ SFLe(e, SFFrac(1, 1000000)) THEN Zero
    ELSE SFDiv(SFMul(Level, m), SFSqrt(SFDiv(e, SFInt(bins))))
Gains(c, edges, energies) == [l \in 1 .. c.L |-> Gain1(c.m[l], c.v[l], edges[l + 1] - edges[l], energies[l])]
\* the gain each bin 0..128 gets: that of the band that owns it, else zero
BinGains(c, edges, gains) ==
    [j \in 1 .. 129 |-> LET S == {l \in 1 .. c.L : edges[l] < j /\ j <= edges[l + 1]}
                        IN IF S = {} THEN Zero ELSE gains[CHOOSE l \in S : TRUE]]
WPrev == TLCEval([n \in 1 .. N |-> WinAt(n - 1)])
WCur == TLCEval([n \in 1 .. N |-> WinAt(n - 1 - N)])
Den == TLCEval([n \in 1 .. N |-> LET d == SFAdd(SFMul(WPrev[n], WPrev[n]), SFMul(WCur[n], WCur[n])) IN IF d = Zero THEN Zero ELSE SFDiv(One, d)])
Wola(prevUw, curUw) ==
    LET p == [n \in 1 .. N |-> IF n + 128 <= 256 THEN prevUw[n + 128] ELSE Zero]
        c == [n \in 1 .. N |-> IF n - 32 >= 1 THEN curUw[n - 32] ELSE Zero]
    IN VMul(VAdd(VMul(WPrev, p), VMul(WCur, c)), Den)

(* ------------------------------ output --------------------------------- *)
ClipLevel == SFDiv(SFMul(SFInt(32767), SFFrac(95, 100)), SFInt(7))
Clip(x) == [n \in 1 .. Len(x) |-> SFMax(SFNeg(ClipLevel), SFMin(ClipLevel, x[n]))]
=============================================================================
