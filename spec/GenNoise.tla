---------------------------------- MODULE GenNoise ----------------------------------
(***************************************************************************)
(* The noise generators of two threads as a state machine, in abstract     *)
(* form: which sequence a thread is in and how far, and whether its next   *)
(* cold start of an unvoiced sequence is overridden.  Checked by itself    *)
(* (a step of one thread never touches the other's generators), and its    *)
(* histories of DEPTH operations are printed as inputs for the library.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Threads, Seeds
Depth == TLCEval(atoi(IOEnv.DEPTH))
VARIABLES vGen, vHist
\* 0 stands for the sequence of a thread that was never seeded
TypeOK == vGen \in [Threads -> [seed : Seeds \cup {"none"}, drawn : 0 .. Depth, over : BOOLEAN, cold : 0 .. Depth]]
Init == /\ vGen = [t \in Threads |-> [seed |-> "none", drawn |-> 0, over |-> FALSE, cold |-> 0]]
        /\ vHist = <<>>
Do(t, op, arg, g) == vGen' = [vGen EXCEPT ![t] = g] /\ vHist' = Append(vHist, <<t, op, arg>>)
Seed(t, s) == Do(t, "seed", s, [vGen[t] EXCEPT !.seed = s, !.drawn = 0, !.over = TRUE])
Comfort(t) == Do(t, "comfort", "", [vGen[t] EXCEPT !.drawn = @ + 1])
Cold(t) == Do(t, "cold", "", [vGen[t] EXCEPT !.over = FALSE, !.cold = @ + 1])
Next == \E t \in Threads : (\E s \in Seeds : Seed(t, s)) \/ Comfort(t) \/ Cold(t)
Bound == Len(vHist) < Depth
PrintHist == Len(vHist) = Depth => PrintT(ToJson(vHist))
Isolation == [][\E t \in Threads : \A u \in Threads \ {t} : vGen'[u] = vGen[u]]_<<vGen, vHist>>
\* an override exists only between a seeding and the next cold start of the same thread
OverrideNeedsSeed == \A t \in Threads : vGen[t].over => vGen[t].seed # "none"
Spec == Init /\ [][Next]_<<vGen, vHist>>
=============================================================================
