---------------------------------- MODULE GenRecords ----------------------------------
(* All programs of Depth steps on a stream's previous record; every program's outcome depends only on what followed its *)
(* last initialisation.                                                                                                 *)
EXTENDS Records, TLC, Json, IOUtils
Depth == TLCEval(atoi(IOEnv.DEPTH))
VARIABLES vKind, vProg
Init == vKind = "junk" /\ vProg = <<>>
Next == /\ Len(vProg) < Depth
        /\ \E op \in Ops : Legal(op, vKind) /\ vKind' = After(op, vKind) /\ vProg' = Append(vProg, op)
Spec == Init /\ [][Next]_<<vKind, vProg>>
RECURSIVE Fold(_, _)
Fold(k, q) == IF q = <<>> THEN k ELSE Fold(After(Head(q), k), Tail(q))
\* initialising makes the past irrelevant
Forgets == \A i \in 1 .. Len(vProg) : vProg[i] = "init" => vKind = Fold("start", SubSeq(vProg, i + 1, Len(vProg)))
\* an AMBE codec never works on what another codec left
NoMix == [][\A c \in Codecs : IsAmbe(c) /\ vProg' = Append(vProg, c) => (vKind = "ambe" \/ Normalises(c, vKind))]_<<vKind, vProg>>
Print1 == Len(vProg) = Depth => PrintT(ToJson(vProg))
=============================================================================
