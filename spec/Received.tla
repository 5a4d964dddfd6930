----------------------------------- MODULE Received -----------------------------------
(* A recorded frame seen by the concealment machine: its class, its error rate, and the outcomes allowed for it.        *)
EXTENDS Conceal, SF, Sequences, Integers
LOCAL P7 == INSTANCE ImbeParams
LOCAL P5 == INSTANCE AmbeParams2450
LOCAL P0 == INSTANCE AmbeParams2400

(* --------------------------- numbers ----------------------------------- *)
Fam(e) == IF e.codec \in {"i72", "i71"} THEN "imbe" ELSE e.codec
Weight(fam) == IF fam = "imbe" THEN SFFrac(365, 1000000) ELSE SFFrac(1064, 1000000)
FreshRate(e) == SFAdd(SFMul(SFFrac(95, 100), SFFromBits(e.rate[1])), SFMul(Weight(Fam(e)), SFInt(e.errs2)))
\* both answers are acceptable within rounding of a boundary
Above(x, y, eps) == (IF SFLe(x, SFAdd(y, eps)) THEN {FALSE} ELSE {}) \cup (IF SFLe(SFSub(y, eps), x) THEN {TRUE} ELSE {})
EnoughSet(e) == Above(SFInt(e.errs2), SFAdd(SFInt(10), SFMul(SFInt(40), FreshRate(e))), SFFrac(1, 10000))
OverSet(r) == Above(r, SFFrac(875, 10000), SFFrac(1, 10000000))

(* -------------------------- classification ----------------------------- *)
Cls(e) == CASE Fam(e) = "imbe" -> IF P7!Reserved(P7!PitchCode(e.d)) THEN "reserved" ELSE "voice"
            [] Fam(e) = "a50" -> P5!Classify(e.d, e.errs2)
            [] OTHER -> P0!Classify(e.d)
ValidTone(e) == P5!ToneId(e.d) \in (5 .. 122) \cup (128 .. 163)
Allowed(e, rc) ==
    CASE Fam(e) = "imbe" ->
           UNION { LET d == ImbeDamaged(Cls(e) = "reserved", e.kind, e.errs, e.errs2, en)
                       m == ImbeOutcome(d, rc, FALSE).model
                   IN { ImbeOutcome(d, rc, ov) : ov \in OverSet(IF m = "same" THEN SFFromBits(e.rate[1]) ELSE FreshRate(e)) }
                   : en \in EnoughSet(e) }
      [] Fam(e) = "a50" -> { A50Outcome(Cls(e), ValidTone(e), A50Damaged(e.kind, e.errs, e.errs2), rc) }
      [] OTHER -> { A00Outcome(Cls(e), e.errs, e.errs2, rc) }

=============================================================================
