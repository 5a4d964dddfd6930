----------------------------- MODULE DumpScramble -----------------------------
\* One state per (codec, seed): the sequence the specification prescribes for it. Writes the table for replay.
EXTENDS Channel, Json, IOUtils
VARIABLES vCodec, vSeed
NSeeds(c) == 2 ^ SeedBits(c)
Init == vCodec \in {"i72", "i71", "a50"} /\ vSeed \in 0 .. NSeeds(vCodec) - 1
Next == UNCHANGED <<vCodec, vSeed>>
\* The scrambler never touches the first row (so the key survives), its cells are distinct, and it is an involution.
Involution(f) == Scramble(vCodec, Scramble(vCodec, f, vSeed), vSeed) = f
Inv == /\ Len(Pr(vCodec, vSeed)) = Len(ScrambleCells[vCodec])
       /\ \A i \in 1 .. Len(ScrambleCells[vCodec]) : ScrambleCells[vCodec][i] > Cols(vCodec)
       /\ (vSeed % 64 = 5) => Involution([c \in 1 .. Rows(vCodec) * Cols(vCodec) |-> Bit(vSeed + c * 7919, c % 11)])
Table(c) == [cells |-> ScrambleCells[c], seq |-> [s \in 1 .. NSeeds(c) |-> Pr(c, s - 1)]]
ASSUME \A c \in Codecs : Cardinality({ScrambleCells[c][i] : i \in 1 .. Len(ScrambleCells[c])}) = Len(ScrambleCells[c])
ASSUME JsonSerialize(IOEnv.OUT, [i72 |-> Table("i72"), i71 |-> Table("i71"), a50 |-> Table("a50"), a00 |-> Table("a00")])
=============================================================================
