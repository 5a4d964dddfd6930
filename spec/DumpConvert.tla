------------------------------ MODULE DumpConvert ------------------------------
\* The 7100 -> 7200 rearrangement for every pitch value: a permutation that keeps every parameter field.
EXTENDS Channel, Json, IOUtils
VARIABLE vB0
Init == vB0 \in 0 .. 255
Next == UNCHANGED vB0
K(b) == VuvBits(BandsOfPitch(b))
\* Fields of the two layouts, as the 0-based positions of their bits in order of significance.
Pitch72 == <<0, 1, 2, 3, 4, 5, 85, 86>>
Pitch71 == <<1, 2, 3, 4, 5, 6, 86, 87>>
Vuv72(k) == [i \in 1 .. k |-> 48 + i - 1]
Vuv71(k) == [i \in 1 .. k |-> 44 + i - 1]
Inv == LET m == ConvMaps[K(vB0)] IN
         /\ DOMAIN m = 0 .. 87
         /\ {m[i] : i \in 0 .. 87} = 0 .. 87                      \* a permutation: nothing lost or duplicated
         /\ [i \in 1 .. 8 |-> m[Pitch72[i]]] = Pitch71            \* pitch keeps its value
         /\ [i \in 1 .. K(vB0) |-> m[Vuv72(K(vB0))[i]]] = Vuv71(K(vB0))
         /\ m[87] = 0
ASSUME JsonSerialize(IOEnv.OUT, [b \in 1 .. 256 |-> [i \in 1 .. 88 |-> ConvMaps[K(b - 1)][i - 1]]])
=============================================================================
