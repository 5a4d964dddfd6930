------------------------------- MODULE TraceConceal -------------------------------
(* C09-C12 (and the error-rate part of C13): every recorded frame of a stream is one of the outcomes the            *)
(* concealment machine allows in the state the previous frames left. IOEnv.PROP selects the rules asserted.         *)
EXTENDS TraceBase, Received, Noise, FiniteSets
Ch == INSTANCE Channel
VARIABLE vRepeats         \* the specification's own repeat counter of the running stream
Prop == TLCEval(IOEnv.PROP)
TraceInit == vLine = 1 /\ vRepeats = 0

(* ------------------------------ rules ---------------------------------- *)
At == SFFrac(1, 2000)
Rt == SFFrac(1, 50000)
NearSeq(a, b) == a = b \/ (Len(a) = Len(b) /\ VFinite(a) /\ VFinite(b) /\ VNear(VBits(a), VBits(b), At, Rt))
NearW(a, b) == a = b \/ (SFIsFinite(a) /\ SFIsFinite(b) /\ SFNear(SFFromBits(a), SFFromBits(b), At, Rt))
SameModel(a, b) == a.L = b.L /\ a.v = b.v /\ NearW(a.w0, b.w0) /\ NearW(a.g, b.g) /\ NearSeq(a.x, b.x) /\ NearSeq(a.m, b.m)
FOne == 1065353216
Flat(a, L, K) == a.L = L /\ a.K = K /\ a.g = 0 /\ \A l \in 1 .. L : a.v[l] = 0 /\ a.x[l] = 0 /\ a.m[l] = FOne
WIs(w, x) == SFIsFinite(w) /\ SFNear(SFFromBits(w), x, Zero, SFFrac(1, 1000000))
Defaults(e) == WIs(e.en[1], SFInt(75000)) /\ e.en[2] = 20480             \* local energy, amplitude threshold
PiSq16 == SFScalb(SFMul(SFPi, SFPi), -4)
ImbeW0 == SFDiv(SFScalb(SFPi, 3), SFInt(347))
FreshModel(e) == /\ Flat(e.now, 15, 0) /\ WIs(e.now.w0, PiSq16)
                 /\ Defaults(e) /\ e.zc = 1 /\ e.ns = -1082130432
                 /\ e.rate[2] = 0 /\ e.tot[2] = 0 /\ e.c4[2] = 0 /\ WIs(e.thr, SFFrac(96, 1000))
ModelRule(e, o) ==
    /\ (Fam(e) = "imbe" /\ o.audio = "noise") => Chk("a muted frame leaves phases and noise state alone", e.carry = 1)
    /\ ChkV("repeat counters", e.rc[2] = o.rc /\ e.rep[2] = o.rc, <<o, e.rc, e.rep>>)
    /\ CASE o.model = "new" -> /\ ChkV("model is the frame's own", (e.dec.ret = 0) => SameModel(e.now, e.dec), <<o, e.now.L, e.dec.L>>)
                               /\ Chk("enhanced model kept for the next frame", (o.audio = "speech") => e.de[2] = e.dc)
         [] o.model = "same" -> /\ ChkV("previous model repeated whole", e.kept[1] = e.kept[2], <<o>>)
                                /\ Chk("enhanced model kept for the next frame", e.de[2] = e.dc)
         [] o.model = "default" -> /\ ChkV("start model", Flat(e.now, 39, 12) /\ WIs(e.now.w0, ImbeW0) /\ Defaults(e), <<e.now.L, e.now.K, e.now.w0>>)
                                   /\ Chk("enhanced model kept for the next frame", e.de[2] = e.dc)
         [] o.model = "fresh" -> ChkV("restarted", FreshModel(e) /\ e.dp[2] = e.de[2] /\ e.dp[2] = e.dc, <<o, e.now.L, e.zc, e.rate, e.thr>>)
         [] o.model = "erased" -> /\ ChkV("erasure model", Flat(e.now, 9, 0) /\ e.now.w0 = 0 /\ Defaults(e), <<e.now.L>>)
                                  /\ Chk("erasure carried in all records", e.dp[2] = e.de[2] /\ e.dp[2] = e.dc)
                                  /\ Chk("continuity state survives an erasure", e.cont[1] = e.cont[2])
         [] o.model = "kept" /\ Fam(e) = "a50" ->
                /\ Chk("tone leaves the voice model alone", e.dp[1] = e.dp[2])
                /\ IF o.audio = "tone" THEN Chk("tone leaves the enhanced voice model alone", e.de[1] = e.de[2])
                   ELSE Chk("replay advances the enhanced voice model",
                            e.yn[1] = e.yn[2] /\ NearSeq(e.yp[1], e.yp[2]) /\ e.yl[1] = e.yl[2])
         [] OTHER -> /\ Chk("tone leaves the prediction state alone",
                            e.now.L = e.was.L /\ NearSeq(e.now.x, e.was.x) /\ NearW(e.now.g, e.was.g) /\ NearW(e.now.w0, e.was.w0))
                     /\ Chk("tone leaves the enhanced voice model alone", e.de[1] = e.de[2])

\* comfort noise of a frame after seeding with each of the seeds the driver uses, at the recorded positions
SeedList == << <<0, 1>>, <<0, 2>>, <<0, 77>>, <<32767, 65535>>, <<0, 0>>, <<4660, 22136>>, <<1, 34455>>, <<0, 3>> >>
NoiseAt == TLCEval([i \in 1 .. Len(SeedList) |->
    LET f == TLCEval(JavaFrame(Scrambled(SeedList[i]), 160)) IN TLCEval([j \in 1 .. 23 |-> f[7 * (j - 1) + 4]])])
IsNoise(e) == VFinite(e.pcm) /\ VNear(VBits(e.pcm), NoiseAt[e.seed], SFFrac(1, 100000), SFFrac(1, 100000))
Scale(x) == SFMul(SFFrac(1, 10000), SFAdd(SFInt(1), VMaxAbs(x)))
Same(a, b) == VFinite(a) /\ VFinite(b) /\ LET x == TLCEval(VBits(b)) IN VNear(VBits(a), x, Scale(x), Zero)
AudioRule(e, o) ==
    CASE o.audio = "noise" -> Chk("comfort noise", IsNoise(e))
      [] o.audio = "speech" -> Chk("speech of the stream's model", ~IsNoise(e) /\ Same(e.pcm, e.sp))
      [] o.audio = "tone" -> Chk("tone", Same(e.pcm, e.tn))
      [] OTHER -> Chk("previous voice replayed", ~IsNoise(e) /\ Same(e.pcm, e.rp))

TextRule(e, o) ==
    /\ ChkV("status text", e.str = Equals(e.errs2) \o o.marks, <<e.codec, e.kind, e.errs, e.errs2, e.str, o.marks>>)
    /\ Chk("status text stays within its room", e.tail = 1)
    /\ Chk("marks are documented ones", o.marks \in LegalMarks(Fam(e)))
    /\ Chk("marks agree with the rendering", (o.audio = "noise") = IsNoise(e))

NearRate(w, x) == SFIsFinite(w) /\ SFNear(SFFromBits(w), x, SFFrac(1, 100000000), SFFrac(1, 1000000))
\* error tracking (C13): afresh, or as the predecessor left it
C4Of(e) == IF Fam(e) = "imbe" /\ e.kind = "F" THEN Ch!Receive(e.codec, e.fr).c4 ELSE 0
RateRule(e, o) ==
    CASE o.model \in {"new", "default", "erased"} \/ (o.model = "kept" /\ Fam(e) = "a00") ->
            /\ ChkV("error rate", NearRate(e.rate[2], FreshRate(e)), <<e.codec, e.rate, e.errs2>>)
            /\ ChkV("error counts", e.tot[2] = e.errs2 /\ e.c4[2] = C4Of(e), <<e.tot, e.c4>>)
      [] o.model \in {"same", "kept"} -> Chk("error tracking of the predecessor", e.rate[2] = e.rate[1] /\ e.tot[2] = e.tot[1] /\ e.c4[2] = e.c4[1])
      [] OTHER -> Chk("error tracking restarted", e.rate[2] = 0 /\ e.tot[2] = 0 /\ e.c4[2] = 0)

Rules(e, o) ==
    CASE Prop \in {"C09", "C10", "C11"} -> ModelRule(e, o) /\ AudioRule(e, o) /\ RateRule(e, o)
      [] Prop = "C12" -> TextRule(e, o)
      [] Prop = "C13" -> RateRule(e, o)
      [] OTHER -> FALSE
Step(e) ==
    LET rc == IF e.first = 1 \/ e.restarted = 1 THEN 0 ELSE vRepeats
    IN \E o \in Allowed(e, rc) : Rules(e, o) /\ vRepeats' = o.rc
TraceNext == /\ vLine <= Len(Log)
             /\ Step(Log[vLine])
             /\ vLine' = vLine + 1
=============================================================================
