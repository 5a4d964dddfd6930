---------------------------------- MODULE GenStreams ----------------------------------
(* All schedules of two streams on two threads, Depth calls long. The model is checked to isolate the streams: the       *)
(* position of a stream after a schedule is the one it would have alone.                                                *)
EXTENDS Streams, TLC, Json, IOUtils
Depth == TLCEval(atoi(IOEnv.DEPTH))
S == {1, 2}
VARIABLES vPos, vSaved, vSched
Init == vPos = [s \in S |-> 0] /\ vSaved = [s \in S |-> 0] /\ vSched = <<>>
Do(x) == /\ vPos' = [vPos EXCEPT ![x.s] = (IF x.mem = "back" THEN vSaved[x.s] ELSE @) + 1]
         /\ vSaved' = [vSaved EXCEPT ![x.s] = IF x.mem = "save" THEN vPos[x.s] ELSE @]
         /\ vSched' = Append(vSched, x)
Next == Len(vSched) < Depth /\ \E x \in Step(S, {1, 2}) : Do(x)
RECURSIVE Alone(_, _, _, _)
\* position of stream s when only its own steps of the schedule are made
Alone(q, s, pos, saved) == IF q = <<>> THEN pos
    ELSE LET x == Head(q) IN IF x.s # s THEN Alone(Tail(q), s, pos, saved)
         ELSE Alone(Tail(q), s, (IF x.mem = "back" THEN saved ELSE pos) + 1, IF x.mem = "save" THEN pos ELSE saved)
Isolated == \A s \in S : vPos[s] = Alone(vSched, s, 0, 0)
Print1 == Len(vSched) = Depth => PrintT(ToJson(vSched))
Spec == Init /\ [][Next]_<<vPos, vSaved, vSched>>
OneAtATime == [][\E s \in S : \A u \in S \ {s} : vPos'[u] = vPos[u] /\ vSaved'[u] = vSaved[u]]_<<vPos, vSaved, vSched>>
=============================================================================
