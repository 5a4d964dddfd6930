---------------------------------- MODULE Conceal ----------------------------------
(***************************************************************************)
(* What is done with a received frame, per codec: pure transition          *)
(* functions shared by the model that is checked by itself (MCConceal),    *)
(* the generator of input histories (GenConceal) and the validation of     *)
(* recorded executions (TraceConceal).                                     *)
(*                                                                         *)
(* State carried between frames: rc, the number of frames repeated in a    *)
(* row.  An outcome says                                                   *)
(*   model : what the stream's previous model becomes                      *)
(*             "new"     the model decoded from this frame                 *)
(*             "same"    the previous model once more (a repeat)           *)
(*             "default" the IMBE start model (repeats exhausted)          *)
(*             "fresh"   everything restarted (AMBE)                       *)
(*             "erased"  the erasure model                                 *)
(*             "kept"    untouched (tones)                                 *)
(*   audio : "speech" "noise" (comfort noise) "tone" "replay" (previous    *)
(*           voice once more)                                              *)
(*   rc    : the counter afterwards                                        *)
(*   marks : the status marks                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences
MaxRepeats == 4
Out(m, a, r, k) == [model |-> m, audio |-> a, rc |-> r, marks |-> k]

(* ------------------------------- IMBE ---------------------------------- *)
\* enough: total errors reach 10 + 40 * (error rate of this frame)
ImbeDamaged(reserved, kind, c0, total, enough) ==
    reserved \/ (IF kind = "F" THEN c0 >= 2 /\ enough ELSE total > 5)
\* over: the error rate of the model that is rendered exceeds the muting threshold
ImbeOutcome(damaged, rc, over) ==
    LET m == IF ~damaged THEN "new" ELSE IF rc >= MaxRepeats THEN "default" ELSE "same"
        n == IF m = "same" THEN rc + 1 ELSE 0
        muted == n >= MaxRepeats \/ over
    IN Out(m, IF muted THEN "noise" ELSE "speech", n, (IF damaged THEN "R" ELSE "") \o (IF muted THEN "M" ELSE ""))

(* ------------------------------- AMBE ---------------------------------- *)
\* a voice (or silence) frame of either AMBE codec
AmbeVoice(damaged, rc) ==
    IF ~damaged THEN Out("new", "speech", 0, "")
    ELSE IF rc + 1 < MaxRepeats THEN Out("same", "speech", rc + 1, "R")
    ELSE Out("fresh", "noise", 0, "RM")
A50Damaged(kind, c0, total) == IF kind = "F" THEN c0 >= 4 \/ (c0 >= 2 /\ total >= 6) ELSE total > 3
\* cls: "voice" "silence" "erasure" "tone"; valid: the tone index exists
A50Outcome(cls, valid, damaged, rc) ==
    CASE cls = "erasure" -> Out("erased", "noise", 0, "E")
      [] cls = "tone" /\ valid -> Out("kept", "tone", rc, "T")
      [] cls = "tone" /\ ~valid -> IF rc < MaxRepeats THEN Out("kept", "replay", rc, "T") ELSE Out("fresh", "noise", 0, "T")
      [] OTHER -> AmbeVoice(damaged, rc)
A00Damaged(total) == total > 3
\* cls: "voice" "tone" "badtone"; a tone is rendered only when received nearly clean
A00Clean(c0, total) == c0 < 2 /\ total < 3
A00Outcome(cls, c0, total, rc) ==
    CASE cls = "badtone" -> Out("fresh", "noise", 0, "T")
      [] cls = "tone" /\ A00Clean(c0, total) -> Out("kept", "tone", rc, "")
      [] cls = "tone" /\ ~A00Clean(c0, total) -> Out("fresh", "noise", 0, IF A00Damaged(total) THEN "R" ELSE "")
      [] OTHER -> AmbeVoice(A00Damaged(total), rc)

(* Status marks an application may meet. *)
LegalMarks(fam) == CASE fam = "imbe" -> {"", "R", "M", "RM"}
                     [] fam = "a50" -> {"", "R", "RM", "E", "T"}
                     [] OTHER -> {"", "R", "RM", "T"}
RECURSIVE Equals(_)
Equals(n) == IF n = 0 THEN "" ELSE Equals(n - 1) \o "="
=============================================================================
