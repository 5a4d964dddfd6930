----------------------------------- MODULE Records -----------------------------------
(***************************************************************************)
(* The three records of a stream as a state machine over what they hold:   *)
(*   "junk"    anything                                                    *)
(*   "start"   the documented start state (set up for IMBE)                *)
(*   "imbe"    left behind by an IMBE frame                                *)
(*   "ambe"    left behind by an AMBE frame                                *)
(* A record is [kind, id]: id names its exact contents. Initialising gives *)
(* all three the one start content, whatever they held; copying copies     *)
(* the content whole; a frame of an AMBE codec whose previous record was   *)
(* not left by an AMBE codec first gives all three the AMBE start content. *)
(***************************************************************************)
EXTENDS Integers, Sequences
Kinds == {"junk", "start", "imbe", "ambe"}
Codecs == {"i72", "i71", "a50", "a00"}
IsAmbe(k) == k \in {"a50", "a00"}
\* what the previous record must be for a frame to be decodable at all
Decodable(kind) == kind # "junk"
\* does an AMBE frame normalise first?
Normalises(codec, kind) == IsAmbe(codec) /\ kind # "ambe"
Leaves(codec) == IF IsAmbe(codec) THEN "ambe" ELSE "imbe"
\* the steps of a program
Ops == {"init", "junk", "move", "use"} \cup Codecs
Legal(op, kind) == op \in Codecs => Decodable(kind)
After(op, kind) == CASE op = "init" -> "start" [] op = "junk" -> "junk" [] op \in Codecs -> Leaves(op) [] OTHER -> kind
=============================================================================
