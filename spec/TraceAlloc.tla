--------------------------------- MODULE TraceAlloc ---------------------------------
(* C27: recorded calls under refused requests. Each is compared with the same call from equal records on a thread that *)
(* has its memory.                                                                                                   *)
EXTENDS TraceBase
Parts == 0
A == INSTANCE Alloc
VARIABLES vHeld, vWhole
TraceInit == vLine = 1 /\ vHeld = [t \in 0 .. 40 |-> 0] /\ vWhole = 0
Abs(x) == IF x < 0 THEN -x ELSE x
\* samples are recorded in sixteenths
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : Abs(a[i] - b[i]) <= 2
Is(e, sound) == IF sound = "full" THEN Same(e.pcm, e.full) ELSE e.voiced # <<>> /\ Same(e.pcm, e.voiced)
\* where the voiced part by itself is not known, the sound only has to be finite (a sample that is not is recorded so)
Loose(e) == e.failed > 0 /\ e.voiced = <<>>
Limit == 16 * 32768
Call(e) == /\ ChkV("finite", \A i \in 1 .. Len(e.pcm) : Abs(e.pcm[i]) <= Limit, e.fn)
           /\ ChkV("sound", Loose(e) \/ \E s \in A!SoundAllowed(e.failed) : Is(e, s), <<e.fn, e.th, e.tried, e.failed>>)
           /\ ChkV("results as with memory", e.res = e.ref, <<e.fn, e.th, e.failed>>)
           /\ ChkV("overlap of the next frame", e.uw = 1, <<e.fn, e.th, e.failed>>)
\* blocks a complete thread holds, measured before anything is refused
Whole(e) == vWhole' = e.held /\ vHeld' = vHeld
Thread(e) == vHeld' = [vHeld EXCEPT ![e.th] = 0] /\ UNCHANGED vWhole
Step(e) == /\ (e.op = "call" => Call(e))
           /\ \E held \in {vHeld[e.th] + e.got - e.freed} :
                /\ ChkV("nothing left behind", A!HeldOk(held, vWhole), <<e.fn, e.th, e.failed, held, vWhole>>)
                /\ vHeld' = [vHeld EXCEPT ![e.th] = held]
           /\ UNCHANGED vWhole
TraceNext == /\ vLine <= Len(Log)
             /\ LET e == Log[vLine] IN CASE e.op = "whole" -> Whole(e) [] e.op = "thread" -> Thread(e) [] OTHER -> Step(e)
             /\ vLine' = vLine + 1
=============================================================================
