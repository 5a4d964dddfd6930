-------------------------------- MODULE TraceConfigs --------------------------------
(* C23: the same calls on every build.                                                                              *)
(*  "frame"  one frame from one common state on all builds (codec frames in the histories the concealment machine    *)
(*           generates): everything exact agrees exactly, every number up to rounding                                *)
(*  "own"    the same histories, every build on its own records: bits, counts, texts, decisions agree                *)
(*  "call"   the public stages on one common model                                                                   *)
EXTENDS TraceBase, Received, Configs, FiniteSets
VARIABLE vApart            \* the histories of the builds may have parted: a decision fell on a boundary within rounding
TraceInit == vLine = 1 /\ vApart = FALSE
Runs(e) == 1 .. Len(e.tones)
Toned(e) == {k \in Runs(e) : e.tones[k] = 1}
Mod(w0, m, v) == [w0 |-> SFFromBits(w0), L |-> Len(v), m |-> VBits(m), v |-> v]
A6 == SFFrac(1, 1000000)
Zeros(s) == \A i \in 1 .. Len(s) : s[i] = 0
AllZero(c, K) == \A k \in K : Zeros(c.u[c.at[k]])

\* one record; K: the builds compared, KS: those compared in the tone oscillator; returns whether amplitudes and voicing are the same
RecRule(e, r, K, KS, m0, w0) ==
    LET L == Len(r.v.u[1])
        s == r.s.u[1]          \* w0 gamma rate thr energy
        m == TLCEval(VBits(r.m.u[1]))
    IN /\ ChkV("counters, bands, noise generator", Alike(r.i, K) /\ Alike(r.nz, K), <<e.codec, r.i.u, r.i.at>>)
       /\ ChkV("pitch, gain, error rate, energy", Close(r.s, K, A6, SFFrac(1, 20000)), <<e.codec, r.s.u>>)
       /\ ChkV("amplitude threshold", CloseInts(r.t, K, 1), <<e.codec, r.t.u>>)
       /\ ChkV("log amplitudes", CloseAbs(r.x, K, SFFrac(1, 1000)), <<e.codec>>)
       /\ ChkV("amplitudes", AmpsAlike(r.m, K, m0, w0), <<e.codec>>)
       /\ ChkV("voicing", VoicingAlike(r.v, K, Deciding(SFFromBits(s[3]), e.errs2, r.i.u[1][6], SFFromBits(s[5]), m)), <<e.codec, r.v.u>>)
       /\ ChkV("phases", CloseAngles(r.psi, K) /\ CloseAngles(r.phi, K), <<e.codec>>)
       /\ ChkV("tone oscillator", CloseCycles(r.sw, KS), <<e.codec, r.sw.u, r.sw.at>>)
SameAudioInput(r, K) == Close(r.m, K, SFFrac(1, 100000), SFFrac(1, 2000)) /\ Alike(r.v, K)
FloatAudio(e, K, tol) == CloseAbs(e.pcm, K, tol)
ShortAudio(e, K, tol) == CloseInts(e.pcm, K, SFFloor(SFMul(SFInt(7), tol)) + 2)
FrameRule(e, o) ==
    LET tonal == Heard(o, FALSE) # Heard(o, TRUE)
        K == IF tonal THEN Toned(e) ELSE Runs(e)
        enh == e.recs[3]
        p == TLCEval(Mod(e.pw, e.pm, e.pv))
        c == TLCEval(Mod(enh.s.u[1][1], enh.m.u[1], enh.v.u[1]))
        phi0 == TLCEval(VBits(e.phi0))
        phi1 == TLCEval(VBits(enh.phi.u[1]))
        dm == TLCEval(VBits(e.recs[2].m.u[1]))
        dw == SFFromBits(e.recs[2].s.u[1][1])
        ref == TLCEval(IF e.fmt = "f" THEN VBits(e.pcm.u[1]) ELSE [i \in 1 .. 160 |-> SFDiv(SFInt(e.pcm.u[1][i]), SFInt(7))])
        still == o.audio \in {"noise", "tone", "silence"}
    IN /\ ChkV("parameter bits, counts, text", Alike(e.ex, Runs(e)), <<e.codec, e.kind, e.ex.u>>)
       /\ \A i \in 1 .. 3 : RecRule(e, e.recs[i], Runs(e), K, dm, dw)
       /\ Chk("samples finite", e.fmt = "s" \/ \A i \in 1 .. Len(e.pcm.u) : VFinite(e.pcm.u[i]))
       /\ Chk("a build without tones is silent", tonal => AllZero(e.pcm, Runs(e) \ Toned(e)))
       /\ IF ~still /\ (\E i \in {1, 3} : ~SameAudioInput(e.recs[i], K)) THEN TRUE
          ELSE IF ~still /\ EdgesUnclear(c) THEN TRUE
          ELSE /\ Chk("unvoiced part", CloseAbs(enh.uw, K, SFAdd(SFFrac(1, 1000), SFMul(SFFrac(1, 1000), VMaxAbs(VBits(enh.uw.u[1]))))))
               /\ IF ~still /\ Unclear(p, c, phi0, phi1) THEN TRUE
                  ELSE LET tol == TLCEval(SampleTol(p, c, phi0, phi1, ref))
                       IN ChkV("samples", IF e.fmt = "f" THEN FloatAudio(e, K, tol) ELSE ShortAudio(e, K, tol), <<e.codec, e.kind, e.str, tol>>)
\* the integer of a sample 7x may differ by one only when 7x is an integer up to single-precision rounding
SameShort(a, b, x) ==
    \/ a = b
    \/ /\ a - b \in {-1, 1}
       /\ LET y == SFMul(SFInt(7), x)
          IN SFLt(SFAbs(y), SFInt(40000)) /\ SFNear(y, SFInt(SFFloor(SFAdd(y, SFFrac(1, 2)))), SFMul(SFAbs(y), SFFrac(1, 4000000)), Zero)
\* with two admissible outcomes the decision falls within rounding of a boundary
FrameStep(e) == LET a == Allowed(e, e.rc) IN IF Cardinality(a) # 1 THEN TRUE ELSE \A o \in a : FrameRule(e, o)
OwnStep(e) ==
    LET parted == (e.first = 0 /\ vApart) \/ Cardinality(Allowed(e, e.rc)) # 1
    IN /\ parted \/ (ChkV("own history: bits, counts, text, decisions", Alike(e.ex, Runs(e)), <<e.codec, e.kind, e.ex.u, e.ex.at>>)
                     /\ ChkV("own history: error rate", Close(e.er, Runs(e), A6, SFFrac(1, 20000)), <<e.er.u>>))
       /\ vApart' = parted
CallRule(e) ==
    LET K == Runs(e)
        m0 == TLCEval(VBits(e.m0))
        w0 == SFFromBits(e.w0)
    IN CASE e.fn = "enhance" -> ChkV("enhancement", AmpsAlike(e.m, K, m0, w0), <<Len(m0)>>)
         [] e.fn = "smooth" ->
              /\ ChkV("smoothing: energy", Close(e.s, K, A6, SFFrac(1, 20000)) /\ CloseInts(e.t, K, 1), <<e.s.u, e.t.u>>)
              /\ ChkV("smoothing: voicing", VoicingAlike(e.v, K, Deciding(SFFromBits(e.rate), e.total, e.c4, SFFromBits(e.s.u[1][1]), m0)), <<e.v.u>>)
              /\ Chk("smoothing: amplitudes", Close(e.m, K, SFFrac(1, 100000), SFFrac(1, 2000)))
         [] e.fn = "synth" ->
              LET p == TLCEval(Mod(e.pw, e.pm, e.pv))
                  c == TLCEval(Mod(e.w0, e.m0, e.v0))
                  phi0 == TLCEval(VBits(e.phi0))
                  phi1 == TLCEval(VBits(e.phi.u[1]))
                  pcm == TLCEval(VBits(e.pcm.u[1]))
              IN /\ Chk("phases", CloseAngles(e.psi, K) /\ CloseAngles(e.phi, K))
                 /\ Chk("noise generator", Alike(e.nz, K))
                 /\ IF EdgesUnclear(c) THEN TRUE
                    ELSE /\ Chk("unvoiced part", CloseAbs(e.uw, K, SFAdd(SFFrac(1, 1000), SFMul(SFFrac(1, 1000), VMaxAbs(VBits(e.uw.u[1]))))))
                         /\ IF Unclear(p, c, phi0, phi1) THEN TRUE
                            ELSE LET tol == TLCEval(SampleTol(p, c, phi0, phi1, pcm)) IN ChkV("samples", CloseAbs(e.pcm, K, tol), <<p.L, c.L, p.w0, c.w0, tol>>)
         [] e.fn = "short" -> Chk("conversion", \A i \in Others(e.pcm, K) : \A j \in 1 .. 160 : SameShort(e.pcm.u[i][j], e.pcm.u[1][j], SFFromBits(e.src[j])))
         [] e.fn = "noise" -> Chk("comfort noise", IF e.fmt = "f" THEN Close(e.pcm, K, SFFrac(1, 100000), SFFrac(1, 10000)) ELSE CloseInts(e.pcm, K, 1))
         [] OTHER -> Chk("predicates and initialisation", Alike(e.ex, K))
TraceNext == /\ vLine <= Len(Log)
             /\ LET e == Log[vLine] IN
                  CASE e.op = "frame" -> FrameStep(e) /\ UNCHANGED vApart
                    [] e.op = "own" -> OwnStep(e)
                    [] OTHER -> CallRule(e) /\ UNCHANGED vApart
             /\ vLine' = vLine + 1
=============================================================================
