--------------------------------- MODULE TraceNoise ---------------------------------
(* C17: recorded calls of several threads against the noise generators. The specification keeps every thread's      *)
(* generator itself; nothing of it is read from the recording.                                                      *)
EXTENDS TraceBase, Noise
VARIABLES vComfort,   \* per thread: 48-bit state of the comfort noise generator
          vOver       \* per thread: start value of its next cold unvoiced sequence, -1 when not overridden
Threads == 1 .. 8
TraceInit == /\ vLine = 1
             /\ vComfort = [t \in Threads |-> Scrambled(DefaultSeed)]
             /\ vOver = [t \in Threads |-> -1]
ZeroAs(s) == IF s = <<0, 0>> THEN ZeroSeed ELSE s
\* a 32-bit seed (two 16-bit halves) modulo 53125
SeedMod(s) == MulMod(ZeroAs(s)[1], 65536, ZeroAs(s)[2], 53125)
Rel == SFFrac(1, 1000000)
FloatOk(e, x) == VFinite(e.out) /\ VNear(VBits(e.out), x, SFFrac(1, 1000000), Rel)
\* seven times the sample, fraction dropped; either neighbour when the product is within rounding of an integer
Eps == SFFrac(1, 20000)
ShortOk(w, x) == LET y == SFMul(SFInt(7), x) IN w = SFTrunc(y) \/ w = SFTrunc(SFAdd(y, Eps)) \/ w = SFTrunc(SFSub(y, Eps))
ComfortOk(e, x) ==
    /\ Len(e.out) = 160
    /\ IF e.fmt = "f" THEN ChkV("comfort noise sequence", FloatOk(e, x), <<e.th, e.how>>)
       ELSE ChkV("comfort noise sequence, 16 bits", \A i \in 1 .. 160 : ShortOk(e.out[i], x[i]), <<e.th, e.how>>)
    /\ e.fmt = "f" => Chk("comfort noise level", SFLe(VMaxAbs(VBits(e.out)), SFMul(Gain, SFAdd(SFInt(1), Rel))))
After(x) == JavaSkip(x, 160)
NoiseStep(e) ==
    CASE e.op = "seed" -> /\ vComfort' = [vComfort EXCEPT ![e.th] = Scrambled(e.seed)]
                          /\ vOver' = [vOver EXCEPT ![e.th] = SeedMod(e.seed)]
      [] e.op = "comfort" -> /\ \E x \in {JavaFrame(vComfort[e.th], 160)} : ComfortOk(e, x)
                             /\ vComfort' = [vComfort EXCEPT ![e.th] = After(@)]
                             /\ UNCHANGED vOver
      \* e.n frames nobody looked at
      [] e.op = "many" -> /\ vComfort' = [vComfort EXCEPT ![e.th] = JavaJump(@, 160 * e.n)]
                          /\ UNCHANGED vOver
      \* first frame of a record whose unvoiced sequence has not begun
      [] e.op = "cold" -> /\ LET s == IF vOver[e.th] < 0 THEN 3147 ELSE vOver[e.th]
                             IN ChkV("start of the unvoiced sequence", e.seed1 = s /\ e.ov1 = [i \in 1 .. 96 |-> 0], <<e.th, e.seed1, s>>)
                          /\ vOver' = [vOver EXCEPT ![e.th] = -1]
                          /\ UNCHANGED vComfort
      \* later frames: the record alone determines them
      [] OTHER -> /\ \E run \in {LcgRun(e.seed0, 161)} :
                        ChkV("unvoiced sequence", e.seed1 = run[161] /\ e.ov1 = SubSeq(run, 65, 160), <<e.th, e.seed0, e.seed1>>)
                  /\ UNCHANGED <<vComfort, vOver>>
TraceNext == /\ vLine <= Len(Log)
             /\ NoiseStep(Log[vLine])
             /\ vLine' = vLine + 1
=============================================================================
