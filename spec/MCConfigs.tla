--------------------------------- MODULE MCConfigs ---------------------------------
(* Two builds fed the same frames by the concealment machine, one of them without tones: whatever the history, they  *)
(* stay in the same state and write the same text; only the sound of tone frames differs.                            *)
EXTENDS Conceal, FiniteSets
Heard(o, tones) == IF o.audio = "tone" /\ ~tones THEN "silence" ELSE o.audio
VARIABLES vFam, vA, vB
Start == Out("new", "speech", 0, "")
Init == vFam \in {"imbe", "a50", "a00"} /\ vA = Start /\ vB = Start
Frame(c0, total, cls, valid, kind, enough, over, rc) ==
    CASE vFam = "imbe" -> ImbeOutcome(ImbeDamaged(cls = "reserved", kind, c0, total, enough), rc, over)
      [] vFam = "a50" -> A50Outcome(cls, valid, A50Damaged(kind, c0, total), rc)
      [] OTHER -> A00Outcome(cls, c0, total, rc)
Classes == CASE vFam = "imbe" -> {"voice", "reserved"} [] vFam = "a50" -> {"voice", "silence", "erasure", "tone"} [] OTHER -> {"voice", "tone", "badtone"}
\* a build applies an outcome to its own state; what it plays is its own business, what it keeps is not
Keep(o, tones) == [o EXCEPT !.audio = Heard(o, tones)]
Next == /\ UNCHANGED vFam
        /\ \E c0 \in 0 .. 3, total \in {0, 2, 3, 4, 5, 6, 12}, cls \in Classes, valid \in BOOLEAN, kind \in {"F", "D"}, en \in BOOLEAN, over \in BOOLEAN :
             /\ total >= c0
             /\ vA' = Keep(Frame(c0, total, cls, valid, kind, en, over, vA.rc), TRUE)
             /\ vB' = Keep(Frame(c0, total, cls, valid, kind, en, over, vB.rc), FALSE)
SameState == vA.rc = vB.rc /\ vA.model = vB.model
SameText == vA.marks = vB.marks
OnlyTonesDiffer == vA.audio # vB.audio => vA.audio = "tone" /\ vB.audio = "silence"
ImbeSame == vFam = "imbe" => vA = vB
=============================================================================
