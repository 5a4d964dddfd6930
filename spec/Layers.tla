----------------------------------- MODULE Layers -----------------------------------
(***************************************************************************)
(* The public entry points as a stack of layers.  Decoding a frame is the  *)
(* program  First ; Descramble ; Rest ; (Rearrange for 7100) ; Parameters. *)
(* The frame entry point is that program run with the first vector's count *)
(* as context; the parameter entry points have no such context, so running *)
(* the program by hand gives the same result exactly when the context      *)
(* makes no difference (SameContext).  A decode of a stream may switch     *)
(* between both ways, and between float and 16-bit output, at any frame.   *)
(***************************************************************************)
EXTENDS Conceal, SF
\* enough: see Conceal (a set, when the threshold is within rounding of the count)
SameContext(fam, cls, c0, total, c4, enough) ==
    CASE fam = "imbe" -> c4 = 0 /\ \A en \in enough : ImbeDamaged(cls = "reserved", "F", c0, total, en) = ImbeDamaged(cls = "reserved", "D", c0, total, en)
      [] fam = "a50" -> cls \in {"erasure", "tone"} \/ A50Damaged("F", c0, total) = A50Damaged("D", c0, total)
      [] OTHER -> TRUE
\* what the concealment machine does through either way
Outcome(fam, kind, cls, valid, c0, total, en, rc, ov) ==
    CASE fam = "imbe" -> ImbeOutcome(ImbeDamaged(cls = "reserved", kind, c0, total, en), rc, ov)
      [] fam = "a50" -> A50Outcome(cls, valid, A50Damaged(kind, c0, total), rc)
      [] OTHER -> A00Outcome(cls, c0, total, rc)
Ways == {"F", "S"} \X {"f", "s"}         \* frame entry point or steps by hand; float or 16-bit output
=============================================================================
