--------------------------------- MODULE MCConceal ---------------------------------
(***************************************************************************)
(* The concealment machine by itself.  The error rate is a scaled integer  *)
(* (Unit per 1.0): rate' = 0.95 rate + weight * errors, and is frozen on a *)
(* repeat.  Checked: the guarantees C09-C11 state about whole histories.   *)
(***************************************************************************)
EXTENDS Conceal, FiniteSets, TLC
CONSTANTS Unit, Totals, Recovery
VARIABLES vFam, vRc, vRate, vRun, vClean, vOut
vars == <<vFam, vRc, vRate, vRun, vClean, vOut>>
NoOut == Out("new", "speech", 0, "")
Init == /\ vFam \in {"imbe", "a50", "a00"} /\ vRc = 0 /\ vRate = 0
        /\ vRun = 0          \* consecutive frames not decoded afresh nor restarted (capped)
        /\ vClean = 0        \* consecutive error-free ordinary voice frames (capped)
        /\ vOut = NoOut
Coef(fam) == IF fam = "imbe" THEN 365 ELSE 1064                 \* per million
NewRate(fam, r, total) == (95 * r) \div 100 + (Coef(fam) * total * (Unit \div 1000)) \div 1000
Over(r) == r * 10000 > 875 * Unit
Enough(total, r) == total * Unit >= 10 * Unit + 40 * r
Cap(n) == IF n > 300 THEN 300 ELSE n
Update(o, r, clean) ==
    /\ vOut' = o /\ vRc' = o.rc
    /\ vRate' = IF o.model = "same" \/ o.model = "kept" THEN vRate ELSE IF o.model = "fresh" THEN 0 ELSE r
    /\ vRun' = IF o.model = "same" THEN vRun + 1 ELSE IF o.model = "kept" THEN vRun ELSE 0
    /\ vClean' = IF clean THEN Cap(vClean + 1) ELSE 0
    /\ UNCHANGED vFam
Imbe == /\ vFam = "imbe"
        /\ \E kind \in {"F", "D"}, c0 \in 0 .. 3, total \in Totals, res \in BOOLEAN :
            /\ total >= c0
            /\ LET r == NewRate("imbe", vRate, total)
                   d == ImbeDamaged(res, kind, c0, total, Enough(total, r))
                   src == ImbeOutcome(d, vRc, FALSE)
                   over == Over(IF src.model = "same" THEN vRate ELSE r)
               IN Update(ImbeOutcome(d, vRc, over), r, total = 0 /\ ~res)
A50 == /\ vFam = "a50"
       /\ \E kind \in {"F", "D"}, c0 \in 0 .. 3, total \in Totals, cls \in {"voice", "silence", "erasure", "tone"}, valid \in BOOLEAN :
            /\ total >= c0
            /\ Update(A50Outcome(cls, valid, A50Damaged(kind, c0, total), vRc), NewRate("a50", vRate, total), total = 0 /\ cls = "voice")
A00 == /\ vFam = "a00"
       /\ \E c0 \in 0 .. 3, total \in Totals, cls \in {"voice", "tone", "badtone"} :
            /\ total >= c0
            /\ Update(A00Outcome(cls, c0, total, vRc), NewRate("a00", vRate, total), total = 0 /\ cls = "voice")
Next == Imbe \/ A50 \/ A00
Spec == Init /\ [][Next]_vars
TypeOK == vRc \in 0 .. MaxRepeats /\ vRate \in Nat
\* only IMBE ever carries the exhausted counter into the next frame
RepeatBound == vRc <= (IF vFam = "imbe" THEN 4 ELSE 3)
\* never more than three repeated frames in a row are heard
NoEndlessRepeat == (vOut.model = "same" /\ vRun >= 4) => vOut.audio = "noise"
RunBound == vRun <= 4
CounterIsRun == (vFam = "imbe" \/ vOut.model # "kept") => vRc = vRun
MarksLegal == vOut.marks \in LegalMarks(vFam)
\* M says exactly that a frame that should have been voice is comfort noise
MuteSaid == /\ (vOut.marks \in {"M", "RM"}) => vOut.audio = "noise"
            /\ (vOut.audio = "noise" /\ vFam = "imbe") => vOut.marks \in {"M", "RM"}
RepeatSaid == (vOut.model = "same" => vOut.marks \in {"R", "RM"})
              /\ (vFam # "a00" => (vOut.marks \in {"R", "RM"} => vOut.model \in {"same", "default", "fresh"}))
\* an error-free voice frame is always decoded afresh; AMBE hears it at once, IMBE as soon as the rate has decayed
CleanIsNew == (vClean > 0) => vOut.model = "new"
AmbeRecovers == (vClean > 0 /\ vFam # "imbe") => vOut.audio = "speech"
ImbeRecovers == (vClean >= Recovery /\ vFam = "imbe") => vOut.audio = "speech"
    \* 0.95^n * max rate (20 * weight * 15) under the threshold: n = 5
RateBounded == vRate <= (20 * Coef(vFam) * 15 * (Unit \div 1000)) \div 1000 + 20
=============================================================================
