-------------------------------- MODULE TraceSynth --------------------------------
(* C15, C16: recorded synthesis of pairs of models (direct calls, and the models of decoded streams), and the state  *)
(* that processed frames carry over. IOEnv.PROP selects the rules.                                                   *)
EXTENDS TraceBase, Synth
Prop == TLCEval(IOEnv.PROP)
TraceInit == vLine = 1
Ints(ws) == [i \in 1 .. Len(ws) |-> SFTrunc(SFFromBits(ws[i]))]
Mod(w0, L, m, v) == [w0 |-> SFFromBits(w0), L |-> L, m |-> VBits(m), v |-> v]
Cur(e) == Mod(e.cw, Len(e.cv), e.cm, e.cv)
Prev(e) == Mod(e.pw, Len(e.pv), e.pm, e.pv)

(* phases: e.psi0/e.phi0 of the previous model before, e.psi1/e.phi1 of the current one after, bands 1..56 *)
NumUv(e) == Len(SelectSeq(e.cv, LAMBDA v : v = 0)) + (IF e.v0 = 0 THEN 1 ELSE 0)
PhaseTol == SFFrac(1, 500)
PsiOk(l, p, c, a, b) == SFNearAngle(b, SFAdd(a, Advance(l, p.w0, c.w0)), PhaseTol)
PhiOk(l, L, numUv, u, psi, phi) ==
    IF l <= L \div 4 THEN SFNear(phi, psi, PhaseTol, Zero) ELSE SFNear(phi, SFAdd(psi, Jitter(u, numUv, L)), PhaseTol, Zero)
PhaseRule(e, p, c, buf) ==
    LET a == TLCEval(VBits(e.psi0))
        b == TLCEval(VBits(e.psi1))
        f == TLCEval(VBits(e.phi1))
    IN /\ Chk("phases finite", VFinite(e.psi1) /\ VFinite(e.phi1))
       /\ ChkV("phase advances by the average pitch", \A l \in 1 .. 56 : PsiOk(l, p, c, a[l], b[l]),
               {<<l, a[l], b[l]>> : l \in {k \in 1 .. 56 : ~PsiOk(k, p, c, a[k], b[k])}})
       /\ ChkV("phase of a band", \A l \in 1 .. c.L : PhiOk(l, c.L, NumUv(e), buf[l + 1], b[l], f[l]),
               {<<l, b[l], f[l]>> : l \in {k \in 1 .. c.L : ~PhiOk(k, c.L, NumUv(e), buf[k + 1], b[k], f[k])}})
Diff(a, b) == LET d == VSub(a, b) IN {<<n, a[n], b[n]>> : n \in {k \in 1 .. Len(d) : SFAbs(d[k]) = VMaxAbs(d)}}
\* phases are single-precision numbers of the size the stream has reached: their rounding scales the tolerance
PcmTol(p, c, phi0, phi1) == SFAdd(SFFrac(1, 100), SFMul(SFAdd(SFFrac(1, 2000), SFScalb(SFMax(VMaxAbs(phi0), VMaxAbs(phi1)), -21)), SFAdd(VSum(p.m), VSum(c.m))))
PcmRule(e, p, c) ==
    LET phi0 == TLCEval(VBits(e.phi0))
        phi1 == TLCEval(VBits(e.phi1))
        pcm == TLCEval(VBits(e.pcm))
    IN /\ Chk("samples finite", VFinite(e.pcm))
       /\ Unclear(p, c, phi0, phi1) \/
          LET x == TLCEval(Clip(VAdd(Voiced(p, c, phi0, phi1), Wola(VBits(e.uw0), VBits(e.uw1))))) IN
          ChkV("samples", VNear(pcm, x, PcmTol(p, c, phi0, phi1), Zero), <<p.L, c.L, p.w0, c.w0, Diff(pcm, x), PcmTol(p, c, phi0, phi1)>>)

NoiseRule(e, buf) ==
    LET after == NoiseAfter(SFTrunc(SFFromBits(e.seed0)), Ints(e.ov0), buf, e.first)
    IN ChkV("noise state", SFFromBits(e.seed1) = SFInt(after.seed) /\ Ints(e.ov1) = after.ov, <<e.seed0, e.seed1, after.seed>>)
Tol(xre, xim) == SFAdd(SFFrac(1, 1000), SFMul(SFSqrt(VSum(VAdd(VMul(xre, xre), VMul(xim, xim)))), SFFrac(1, 100000)))
CloseBin(h, tol, a, b) == SFNear(a, b, SFAdd(tol, SFMul(h, SFInt(20))), SFFrac(1, 5000))
\* each name is bound by \E over a singleton so that TLC evaluates it once
SpectrumRule(e, c, buf) ==
    /\ Chk("unvoiced part finite", VFinite(e.uw1))
    /\ \/ EdgesUnclear(c)
       \/ \E x \in {VMul([i \in 1 .. 256 |-> SFInt(buf[i])], Win)} :
          \E re \in {VDftAllRe(x, 256)}, im \in {VDftAllIm(x, 256)}, edges \in {Edges(c)} :
          \E en \in {BandEnergies(c, edges, TLCEval(Mag2(re, im)))} :
          \E g \in {Gains(c, edges, en)} :
          \E h \in {BinGains(c, edges, g)}, uw \in {VBits(e.uw1)} :
          \E ure \in {VDftAllRe(uw, 256)}, uim \in {VDftAllIm(uw, 256)}, xre \in {VMul(h, re)}, xim \in {VMul(h, im)} :
          \E tol \in {Tol(xre, xim)} :
          \E bad \in {{j \in 1 .. 129 : ~CloseBin(h[j], tol, ure[j], xre[j]) \/ ~CloseBin(h[j], tol, uim[j], xim[j])}} :
             ChkV("unvoiced spectrum", bad = {}, <<c.w0, c.L, tol, {<<j - 1, h[j], ure[j], xre[j], uim[j], xim[j]>> : j \in bad}>>)

SynStep(e) ==
    LET p == TLCEval(Prev(e))
        c == TLCEval(Cur(e))
        buf == TLCEval(NoiseBuffer(SFTrunc(SFFromBits(e.seed0)), Ints(e.ov0)))
    IN IF Prop = "C15" THEN PhaseRule(e, p, c, buf) /\ PcmRule(e, p, c)
                            /\ Chk("only phases, unvoiced state and smoothing change", e.other = 1)
       ELSE NoiseRule(e, buf) /\ SpectrumRule(e, c, buf) /\ (e.part \in {"u", "t"} => PcmRule(e, p, c))
\* a processed frame: which noise and phase state its synthesis started from
FrameStep(e) ==
    IF Prop = "C15" THEN
        LET p == [w0 |-> SFFromBits(e.pw)]
            c == [w0 |-> SFFromBits(e.cw)]
            a == TLCEval(VBits(e.psi0))
            b == TLCEval(VBits(e.psi1))
        IN ChkV("phases run on from the previous frame", \A l \in 1 .. 56 : PsiOk(l, p, c, a[l], b[l]), <<e.codec, e.str>>)
    ELSE LET s0 == IF e.rep = 1 THEN e.pseed0 ELSE e.cseed0
             o0 == Ints(IF e.rep = 1 THEN e.pov0 ELSE e.cov0)
             seed == SFTrunc(SFFromBits(s0))
             after == NoiseAfter(seed, o0, NoiseBuffer(seed, o0), e.first)
         IN ChkV("noise runs on from the previous frame", SFFromBits(e.seed1) = SFInt(after.seed) /\ Ints(e.ov1) = after.ov,
                 <<e.codec, e.str, s0, e.seed1, after.seed>>)
TraceNext == /\ vLine <= Len(Log)
             /\ LET e == Log[vLine] IN IF e.op = "syn" THEN SynStep(e) ELSE FrameStep(e)
             /\ vLine' = vLine + 1
=============================================================================
