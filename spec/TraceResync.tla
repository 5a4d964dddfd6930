-------------------------------- MODULE TraceResync --------------------------------
(* C28: recorded pairs of receivers. An event holds the state of both before (a0, b0) and after (a1, b1) a common    *)
(* frame: L, x (log amplitudes of the bands), g (gain), r (error rate), e (local energy), t (amplitude threshold),    *)
(* m (amplitudes), em, ev (enhanced and smoothed amplitudes, voicing), k (L, K, pitch, voicing of the decode), s text. *)
EXTENDS TraceBase, Resync
TraceInit == vLine = 1
LowRate == SFFrac(49, 10000)
Eps == SFFrac(1, 2000)
Tiny == SFFrac(1, 500000)
X(w) == TLCEval(VBits(w))
F(w) == SFFromBits(w)
Common(e) ==
    LET x0 == X(e.a0.x) y0 == X(e.b0.x) x1 == X(e.a1.x) y1 == X(e.b1.x)
    IN /\ Chk("finite", VFinite(e.a1.x) /\ VFinite(e.b1.x) /\ VFinite(e.a1.em) /\ VFinite(e.b1.em))
       /\ ChkV("both decode the frame alike", e.a1.k = e.b1.k /\ e.a1.n = e.b1.n, <<e.a1.n, e.b1.n>>)
       /\ ChkV("log amplitudes forget", Contracts(e.fam, e.a1.L, x0, y0, x1, y1, Eps), <<e.fam, e.a1.L, Spread(VSub(x1, y1))>>)
       /\ Chk("level follows the gain", MeanGap(e.fam, x1, y1, F(e.a1.g), F(e.b1.g), Eps))
       /\ Chk("gain forgets", e.fam = "imbe" \/ GainHalves(F(e.a0.g), F(e.b0.g), F(e.a1.g), F(e.b1.g), Eps))
       /\ Chk("error rate forgets", RateDecays(F(e.a0.r), F(e.b0.r), F(e.a1.r), F(e.b1.r), Tiny))
       /\ Chk("no repeats pending", e.a1.rc = 0 /\ e.b1.rc = 0)
       /\ \E rm \in {VDot(X(e.a1.m), X(e.a1.m))} : \E sm \in {VDot(X(e.b1.m), X(e.b1.m))} :
            Chk("local energy forgets", EnergyFades(F(e.a0.e), F(e.b0.e), F(e.a1.e), F(e.b1.e), rm, sm))
\* the end of the stretch: nothing of the pasts is left
Settled(e) ==
    LET x == X(e.a1.x) y == X(e.b1.x) p == X(e.a1.em) q == X(e.b1.em)
        tol == SFMul(SFAdd(VSum(p), SFInt(1)), SFFrac(1, 1000))
        pa == X(e.pcm[1]) pb == X(e.pcm[2])
    IN /\ Chk("settled rate", SFLt(F(e.a1.r), LowRate) /\ SFLt(F(e.b1.r), LowRate))
       /\ Chk("settled log amplitudes", VNear(x, y, SFFrac(1, 500), Zero))
       /\ Chk("settled gain", SFNear(F(e.a1.g), F(e.b1.g), SFFrac(1, 500), Zero))
       /\ Chk("settled threshold", e.a1.t = 20480 /\ e.b1.t = 20480)
       /\ ChkV("settled voicing", e.a1.ev = e.b1.ev, <<e.a1.ev, e.b1.ev>>)
       /\ Chk("settled amplitudes", \A i \in 1 .. Len(p) : SFNear(p[i], q[i], SFFrac(1, 1000), SFFrac(1, 50)))
       /\ Chk("settled text", e.s[1] = e.s[2] /\ e.s[1] = e.want)
       \* the same oscillator phases and noise in both: the same sound
       /\ ChkV("settled sound", \A i \in 1 .. Len(pa) : SFLe(Gap(pa[i], pb[i]), SFMul(SFInt(20), tol)), <<VSum(p)>>)
Step(e) == CASE e.op = "common" -> Common(e)
             [] e.op = "settled" -> Common(e) /\ Settled(e)
TraceNext == /\ vLine <= Len(Log)
             /\ Step(Log[vLine])
             /\ vLine' = vLine + 1
=============================================================================
