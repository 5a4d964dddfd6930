--------------------------------- MODULE GenAlloc ---------------------------------
(* Histories of calls of two threads under refused requests: checked by themselves, and printed as inputs for the    *)
(* library.                                                                                                          *)
EXTENDS Alloc, TLC, Json, IOUtils
CONSTANT Threads
Depth == TLCEval(atoi(IOEnv.DEPTH))
VARIABLES vPlan, vSound, vHist
vars == <<vPlan, vSound, vHist>>
Init == vPlan = [t \in Threads |-> "none"] /\ vSound = [t \in Threads |-> "full"] /\ vHist = <<>>
\* once the plan is there, requests are not made: one fault stands for all
Faults(plan) == IF plan = "whole" THEN {0, Parts + 1} ELSE 0 .. Parts + 1
Call(t, kind, fault) == /\ vPlan' = [vPlan EXCEPT ![t] = After(@, kind, fault)]
                        /\ vSound' = [vSound EXCEPT ![t] = Sound(vPlan[t], kind, fault)]
                        /\ vHist' = Append(vHist, <<t, kind, fault>>)
Next == \E t \in Threads : \E f \in Faults(vPlan[t]) : Call(t, Speech, f) \/ (f \in {0, Parts + 1} /\ Call(t, "other", f))
Bound == Len(vHist) < Depth
PrintHist == Len(vHist) = Depth => PrintT(ToJson(vHist))
TypeOK == vPlan \in [Threads -> Plans] /\ vSound \in [Threads -> {"full", "voiced"}]
\* a plan is never lost, sound is whole whenever the plan is, and a thread's memory is its own
Kept == [][\A t \in Threads : vPlan[t] = "whole" => vPlan'[t] = "whole"]_vars
Heard == [][\A t \in Threads : vPlan'[t] = "whole" => vSound'[t] = "full"]_vars
Own == [][\E t \in Threads : \A u \in Threads \ {t} : vPlan'[u] = vPlan[u] /\ vSound'[u] = vSound[u]]_vars
Recovers == [][\A t \in Threads : vHist' = Append(vHist, <<t, Speech, 0>>) => vSound'[t] = "full"]_vars
Bounded == \A t \in Threads : Owned(vPlan[t]) <= Parts
Spec == Init /\ [][Next]_vars
=============================================================================
