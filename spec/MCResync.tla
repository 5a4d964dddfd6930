---------------------------------- MODULE MCResync ----------------------------------
(* The derivation behind Resync, on the reconstruction operators themselves, and on the concealment machine.          *)
(* Prediction is linear in the previous log spectrum, so pulses (one band of one past) decide it: for every previous   *)
(* and current band count and a pulse in any part of the spectrum, the difference of two pasts contracts.            *)
(* Machine: two receivers in any states a past can leave; after one common undamaged frame they are in the same state. *)
EXTENDS Resync, Conceal
I == INSTANCE ImbeParams
A == INSTANCE AmbeParams2450
CONSTANT Lengths2    \* current band counts explored
VARIABLES vPart, vA, vB
Flat(L) == [L |-> L, log2 |-> [i \in 1 .. 57 |-> Zero], gamma |-> Zero]
Pulse(L, k, h) == [L |-> L, log2 |-> [i \in 1 .. 57 |-> IF i = k + 1 THEN SFInt(h) ELSE Zero], gamma |-> SFInt(2)]
Bands(p) == SubSeq(p.log2, 2, p.L + 1)
None(L) == TLCEval([l \in 1 .. L |-> Zero])
NoCodes == [g2 |-> 0, b3 |-> 0, b4 |-> 0, b5 |-> 0, b6 |-> 0, b7 |-> 0, b8 |-> 0]
Places(L) == {1, 2, L \div 2, L - 1, L}
Heights == {-3, 7}
AllLengths == 9 .. 56
Exact == SFFrac(1, 10000000)
Start == Out("new", "speech", 0, "")
Init == \/ /\ vPart = "imbe" /\ vA \in 9 .. 56 /\ vB = 0
        \/ /\ vPart = "ambe" /\ vA \in 9 .. 56 /\ vB = 0
        \/ /\ vPart \in {"m-imbe", "m-a50", "m-a00"} /\ vA = Start /\ vB = Start
Fam == CASE vPart = "m-imbe" -> "imbe" [] vPart = "m-a50" -> "a50" [] OTHER -> "a00"
Frame(c0, total, cls, valid, kind, enough, over, rc) ==
    CASE Fam = "imbe" -> ImbeOutcome(ImbeDamaged(cls = "reserved", kind, c0, total, enough), rc, over)
      [] Fam = "a50" -> A50Outcome(cls, valid, A50Damaged(kind, c0, total), rc)
      [] OTHER -> A00Outcome(cls, c0, total, rc)
Classes == CASE Fam = "imbe" -> {"voice", "reserved"} [] Fam = "a50" -> {"voice", "silence", "erasure", "tone"} [] OTHER -> {"voice", "tone", "badtone"}
\* each receiver's own past
Own == /\ vPart \in {"m-imbe", "m-a50", "m-a00"} /\ UNCHANGED <<vPart, vB>>
       /\ \E c0 \in 0 .. 3, total \in {0, 2, 3, 4, 5, 6, 12}, cls \in Classes, valid \in BOOLEAN, kind \in {"F", "D"}, en \in BOOLEAN, over \in BOOLEAN :
            total >= c0 /\ vA' = Frame(c0, total, cls, valid, kind, en, over, vA.rc)
Swap == /\ vPart \in {"m-imbe", "m-a50", "m-a00"} /\ UNCHANGED vPart /\ vA' = vB /\ vB' = vA
Lengths == vPart \in {"imbe", "ambe"} /\ vB = 0 /\ vB' \in Lengths2 /\ UNCHANGED <<vPart, vA>>
Next == Own \/ Swap \/ Lengths
SpectraContract ==
    /\ vPart = "imbe" /\ vB # 0 => \A k \in Places(vA), h \in Heights :
         /\ LET x == Pulse(vA, k, h) y == Flat(vA)
            IN Contracts("imbe", vB, Bands(x), Bands(y), I!Predict(I!Rho(vB), None(vB), vB, x), I!Predict(I!Rho(vB), None(vB), vB, y), Exact)
         /\ LET x == Pulse(vA, k, h) y == Pulse(65 - vA, 9, 5)
            IN Contracts("imbe", vB, Bands(x), Bands(y), I!Predict(I!Rho(vB), None(vB), vB, x), I!Predict(I!Rho(vB), None(vB), vB, y), Exact)
    /\ vPart = "ambe" /\ vB # 0 => \A k \in Places(vA) :
         LET x == Pulse(vA, k, 7) y == Flat(vA)
             p == A!Log2Amps(A!Tab, vB, NoCodes, x) q == A!Log2Amps(A!Tab, vB, NoCodes, y)
         IN /\ Contracts("a50", vB, Bands(x), Bands(y), p, q, SFFrac(1, 1000000))
            /\ MeanGap("a50", p, q, A!NewGain(A!Tab, NoCodes, x), A!NewGain(A!Tab, NoCodes, y), SFFrac(1, 1000000))
            /\ GainHalves(x.gamma, y.gamma, A!NewGain(A!Tab, NoCodes, x), A!NewGain(A!Tab, NoCodes, y), Exact)
\* a common undamaged voice frame (IMBE: heard once both rates are low)
MachineForgets == vPart \in {"m-imbe", "m-a50", "m-a00"} =>
    \A kind \in {"F", "D"}, en \in BOOLEAN : Frame(0, 0, "voice", TRUE, kind, en, FALSE, vA.rc) = Frame(0, 0, "voice", TRUE, kind, en, FALSE, vB.rc)
=============================================================================
