--------------------------------- MODULE DumpHelpers ---------------------------------
(* Proves, on a lattice of bit patterns of either sign, that Key orders them like the numbers they denote and that each  *)
(* predicate is monotone with the breakpoints below; dumps the breakpoints for the replay over every float and integer.  *)
EXTENDS Helpers, SF, IOUtils, Json
VARIABLES vA, vB
Lattice == LET g == {0, 1, 8388607, 8388608, 1065353216, 1065353217, 2139095039, EntryRate - 1, EntryRate, EntryRate + 1,
                     ImbeMuting - 1, ImbeMuting, ImbeMuting + 1, AmbeMuting - 1, AmbeMuting, AmbeMuting + 1}
           IN g \cup {(x - 2147483647) - 1 : x \in g}
Init == vA \in Lattice /\ vB \in Lattice
Next == UNCHANGED <<vA, vB>>
Ordered == SFLt(SFFromBits(vB), SFFromBits(vA)) <=> Above(vA, vB)
Monotone == /\ RequiresMuting(vB, ImbeMuting) /\ Above(vA, vB) => RequiresMuting(vA, ImbeMuting)
            /\ Above(vA, vB) => ~RequiresMuting(vB, vA)
            /\ RequiresSmoothing(vA, 5) /\ (RequiresSmoothing(vB, 0) /\ Above(vA, vB) => RequiresSmoothing(vA, 0))
ASSUME SFNear(SFFromBits(EntryRate), SFFrac(125, 10000), Zero, SFFrac(1, 15000000))
ASSUME SFNear(SFFromBits(ImbeMuting), SFFrac(875, 10000), Zero, SFFrac(1, 15000000))
ASSUME SFNear(SFFromBits(AmbeMuting), SFFrac(96, 1000), Zero, SFFrac(1, 15000000))
ASSUME \A t \in {ImbeMuting, AmbeMuting, EntryRate} : RequiresMuting(t + 1, t) /\ ~RequiresMuting(t, t) /\ ~RequiresMuting(-1, t)
\* for each threshold: the smallest bits that exceed it
ASSUME JsonSerialize(IOEnv.OUT, [rate |-> EntryRate + 1, imbe |-> ImbeMuting + 1, ambe |-> AmbeMuting + 1, total |-> 5, repeats |-> MaxRepeats])
=============================================================================
