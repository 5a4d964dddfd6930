--------------------------------- MODULE GenConceal ---------------------------------
(* Dumps every transition of the concealment machine (without the error rate) as inputs to be replayed.             *)
EXTENDS Conceal, TLC, Json
VARIABLES vFam, vState
\* abstract state: the repeat counter and what was done last
Init == vFam \in {"imbe", "a50", "a00"} /\ vState = <<0, "new">>
Totals(kind, c0) == IF kind = "F" THEN {t \in {0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 15} : t >= c0} ELSE {0, 3, 4, 5, 6, 12}
Key(f, s) == ToString(<<f, s>>)
Say(cls, kind, c0, total, o) ==
    /\ vState' = <<o.rc, o.model>>
    /\ PrintT(ToJson([fam |-> vFam, a |-> Key(vFam, vState), b |-> Key(vFam, vState'), i |-> <<kind, cls, c0, total>>,
                      init |-> Key(vFam, <<0, "new">>), o |-> o]))
Imbe == \E kind \in {"F", "D"}, cls \in {"voice", "reserved"} : \E c0 \in 0 .. 3 : \E total \in Totals(kind, c0) :
          /\ (kind = "D" => c0 = 0) /\ (cls = "reserved" => total \in {0, 5, 12})
          /\ LET d == ImbeDamaged(cls = "reserved", kind, c0, total, total >= 11)
             IN Say(cls, kind, c0, total, ImbeOutcome(d, vState[1], FALSE))
A50 == \E kind \in {"F", "D"}, cls \in {"voice", "silence", "erasure", "tone", "badtone"} : \E c0 \in 0 .. 3 : \E total \in Totals(kind, c0) :
          /\ (kind = "D" => c0 = 0) /\ (total <= c0 + 3 \/ kind = "D")
          /\ (cls \in {"tone", "badtone"} => total < 6)
          /\ Say(cls, kind, c0, total, A50Outcome(IF cls = "badtone" THEN "tone" ELSE cls, cls = "tone",
                     A50Damaged(kind, c0, total), vState[1]))
A00 == \E kind \in {"F", "D"}, cls \in {"voice", "tone", "badtone"} : \E c0 \in 0 .. 3 : \E total \in Totals(kind, c0) :
          /\ (total <= c0 + 3 \/ kind = "D")
          /\ Say(cls, kind, c0, total, A00Outcome(cls, c0, total, vState[1]))
Next == /\ UNCHANGED vFam
        /\ CASE vFam = "imbe" -> Imbe [] vFam = "a50" -> A50 [] OTHER -> A00
=============================================================================
