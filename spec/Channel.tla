-------------------------------- MODULE Channel --------------------------------
(***************************************************************************)
(* The channel layer of the four frame formats: layout of a frame, the     *)
(* pseudo-random scrambling keyed by the first vector, protection of the   *)
(* vectors, and the order in which parameter bits are packed.              *)
(*                                                                         *)
(* A frame is the sequence of its cells, row by row (the order in which    *)
(* the API takes it); cell (r, c) is element r * Cols + c + 1.             *)
(***************************************************************************)
EXTENDS Ecc

Codecs == {"i72", "i71", "a50", "a00"}
IsAmbe(k) == k \in {"a50", "a00"}
Rows(k) == CASE k = "i72" -> 8 [] k = "i71" -> 7 [] OTHER -> 4
Cols(k) == IF k = "i72" THEN 23 ELSE 24
NBits(k) == IF IsAmbe(k) THEN 49 ELSE 88

\* A vector of the frame: <<row, highest column, number of bits, protection>>
\* in transmission order. protection: "g" Golay, "h" Hamming, "j" Hamming of
\* the 7100 arrangement, "s" shortened Golay (18 bits), "-" none.
Vectors(k) ==
    CASE k = "i72" -> << <<0, 22, 23, "g">>, <<1, 22, 23, "g">>, <<2, 22, 23, "g">>, <<3, 22, 23, "g">>,
                         <<4, 14, 15, "h">>, <<5, 14, 15, "h">>, <<6, 14, 15, "h">>, <<7, 6, 7, "-">> >>
      [] k = "i71" -> << <<0, 18, 18, "s">>, <<1, 23, 23, "g">>, <<2, 22, 23, "g">>, <<3, 22, 23, "g">>,
                         <<4, 14, 15, "j">>, <<5, 14, 15, "j">>, <<6, 22, 23, "-">> >>
      [] OTHER     -> << <<0, 23, 23, "g">>, <<1, 22, 23, "g">>, <<2, 10, 11, "-">>, <<3, 13, 14, "-">> >>

Cell(k, r, c) == r * Cols(k) + c + 1
RECURSIVE Word(_, _, _, _, _)
\* the integer whose most significant bit is cell (r, c) and which has n bits
Word(k, fr, r, c, n) == IF n = 0 THEN 0 ELSE fr[Cell(k, r, c)] * 2 ^ (n - 1) + Word(k, fr, r, c - 1, n - 1)
VecWord(k, fr, v) == Word(k, fr, v[1], v[2], v[3])

\* number of data bits of a vector, decoded data, corrections counted
DataBits(v) == CASE v[4] = "g" -> 12 [] v[4] = "s" -> 7 [] v[4] \in {"h", "j"} -> 11 [] OTHER -> v[3]
Corrected(v, w) == CASE v[4] = "g" -> GolayDecode(w)
                     [] v[4] = "s" -> GolayDecode(w) % 128
                     [] v[4] = "h" -> HamFix(TRUE, w) \div 16
                     [] v[4] = "j" -> HamFix(FALSE, w) \div 16
                     [] OTHER -> w
Corrections(v, w) == CASE v[4] \in {"g", "s"} -> GolayErrs(w)
                       [] v[4] = "h" -> HamErrs(TRUE, w)
                       [] v[4] = "j" -> HamErrs(FALSE, w)
                       [] OTHER -> 0

(* ------------------------------- scrambling ---------------------------- *)
SeedBits(k) == IF k = "i71" THEN 7 ELSE 12
SeedCol(k) == Vectors(k)[1][2]
\* cells that are scrambled, in the order in which the sequence is consumed
ScrRows(k) == CASE k = "i72" -> <<<<1, 22>>, <<2, 22>>, <<3, 22>>, <<4, 14>>, <<5, 14>>, <<6, 14>>>>
                [] k = "i71" -> <<<<1, 23>>, <<2, 22>>, <<3, 22>>, <<4, 14>>, <<5, 14>>>>
                [] OTHER -> <<<<1, 22>>>>
RECURSIVE ScrCells(_, _)
ScrCells(k, i) == IF i > Len(ScrRows(k)) THEN <<>>
                  ELSE [j \in 1 .. ScrRows(k)[i][2] + 1 |-> Cell(k, ScrRows(k)[i][1], ScrRows(k)[i][2] - (j - 1))]
                       \o ScrCells(k, i + 1)
ScrambleCells == TLCEval([k \in Codecs |-> TLCEval(ScrCells(k, 1))])

RECURSIVE PrSeq(_, _)
\* n top bits of the generator started from x
PrSeq(x, n) == IF n = 0 THEN <<>> ELSE LET y == MulMod(173, x, 13849, 65536) IN <<y \div 32768>> \o PrSeq(y, n - 1)
Pr(k, seed) == PrSeq(16 * seed, Len(ScrambleCells[k]))

\* position of every cell in the sequence (0: not scrambled)
ScrambleAt == TLCEval([k \in Codecs |-> TLCEval([c \in 1 .. Rows(k) * Cols(k) |->
                  IF \E i \in 1 .. Len(ScrambleCells[k]) : ScrambleCells[k][i] = c
                  THEN CHOOSE i \in 1 .. Len(ScrambleCells[k]) : ScrambleCells[k][i] = c ELSE 0])])

\* frame (as cells) with the scrambled cells flipped according to the seed
Scramble(k, fr, seed) ==
    LET pr == TLCEval(Pr(k, seed))
        at == ScrambleAt[k]
    IN TLCEval([c \in 1 .. Len(fr) |-> IF at[c] = 0 THEN fr[c] ELSE (fr[c] + pr[at[c]]) % 2])
FrameSeed(k, fr) == Word(k, fr, 0, SeedCol(k), SeedBits(k))

(* ----------------------------- receiving side -------------------------- *)
RECURSIVE BitsOf(_, _)
BitsOf(w, n) == IF n = 0 THEN <<>> ELSE <<Bit(w, n - 1)>> \o BitsOf(w, n - 1)

RECURSIVE OnesFrom(_, _, _)
OnesFrom(s, a, b) == IF a > b THEN 0 ELSE s[a] + OnesFrom(s, a + 1, b)

\* First vector: its data word, and the number of corrections (AMBE adds a
\* parity position, corrected when the word itself needed no correction).
C0Data(k, fr) == LET v == Vectors(k)[1] IN Corrected(v, VecWord(k, fr, v))
C0Errs(k, fr) ==
    LET v == Vectors(k)[1]
        e == Corrections(v, VecWord(k, fr, v))
    IN IF IsAmbe(k) /\ e = 0 THEN OnesFrom(fr, 1, 24) % 2 ELSE e
C0Seed(k, fr) == C0Data(k, fr)      \* the data bits of the first vector key the scrambler

RECURSIVE Pack(_, _, _)
\* parameter bits of the vectors i.. of the descrambled frame
Pack(k, fr, i) == IF i > Len(Vectors(k)) THEN <<>>
                  ELSE LET v == Vectors(k)[i] IN BitsOf(Corrected(v, VecWord(k, fr, v)), DataBits(v)) \o Pack(k, fr, i + 1)
RECURSIVE CountErrs(_, _, _)
CountErrs(k, fr, i) == IF i > Len(Vectors(k)) THEN 0
                       ELSE LET v == Vectors(k)[i] IN Corrections(v, VecWord(k, fr, v)) + CountErrs(k, fr, i + 1)

\* What receiving the frame must deliver.
Receive(k, fr) ==
    LET de == Scramble(k, fr, C0Seed(k, fr))
    IN [bits |-> Pack(k, de, 1), errs |-> C0Errs(k, fr),
        total |-> C0Errs(k, fr) + CountErrs(k, de, 2),
        c4 |-> IF IsAmbe(k) THEN 0 ELSE Corrections(Vectors(k)[5], VecWord(k, de, Vectors(k)[5])),
        descrambled |-> de]

(* ----------------------------- transmitting side ----------------------- *)
VecEncode(v, d) == CASE v[4] = "g" -> GolayEncode(d)
                     [] v[4] = "s" -> GolayEncode(d)            \* data < 128: the upper five bits are zero
                     [] v[4] = "h" -> HamEncode(TRUE, d)
                     [] v[4] = "j" -> HamEncode(FALSE, d)
                     [] OTHER -> d
RECURSIVE IntOf(_, _, _)
IntOf(bits, a, n) == IF n = 0 THEN 0 ELSE bits[a] * 2 ^ (n - 1) + IntOf(bits, a + 1, n - 1)
RECURSIVE PutVectors(_, _, _, _, _)
PutVectors(k, bits, i, at, fr) ==
    IF i > Len(Vectors(k)) THEN fr
    ELSE LET v == Vectors(k)[i]
             w == VecEncode(v, IntOf(bits, at, DataBits(v)))
             lo == v[2] - v[3] + 1
             fr2 == [c \in 1 .. Len(fr) |->
                        LET r == (c - 1) \div Cols(k)
                            col == (c - 1) % Cols(k)
                        IN IF r = v[1] /\ col >= lo /\ col <= v[2] THEN Bit(w, col - lo) ELSE fr[c]]
         IN PutVectors(k, bits, i + 1, at + DataBits(v), TLCEval(fr2))
EmptyFrame(k) == [c \in 1 .. Rows(k) * Cols(k) |-> 0]
\* Encode, add AMBE's overall parity of the first vector, scramble.
Transmit(k, bits) ==
    LET raw == PutVectors(k, bits, 1, 1, EmptyFrame(k))
        fr == IF IsAmbe(k) THEN [raw EXCEPT ![1] = OnesFrom(raw, 2, 24) % 2] ELSE raw
    IN Scramble(k, fr, FrameSeed(k, fr))

(* ------------------- 7100 -> 7200 parameter rearrangement -------------- *)
BandsOfPitch(b0) == (((2 * b0 + 81) \div 8) * 9254) \div 10000
VuvBits(L) == IF L < 37 THEN (L + 2) \div 3 ELSE 12
PitchOf7100(d) == IntOf(d, 2, 6) * 4 + d[87] * 2 + d[88]
\* For every destination (0-based) the source (0-based) for K voicing bits.
RECURSIVE ConvRest(_, _, _, _)
ConvRest(K, j, s, acc) ==
    IF j >= 87 THEN acc
    ELSE ConvRest(K, IF j + 1 = 48 THEN 50 + K ELSE j + 1, IF s + 1 = 42 THEN 44 + K ELSE s + 1, acc @@ (j :> s))
ConvMap(K) == TLCEval((87 :> 0) @@ ((48 + K) :> 42) @@ ((49 + K) :> 43)
                      @@ [j \in 48 .. 47 + K |-> j - 48 + 44]
                      @@ ConvRest(K, 0, 1, <<>>))
ConvMaps == TLCEval([K \in 1 .. 12 |-> ConvMap(K)])
Convert(d) == LET m == ConvMaps[VuvBits(BandsOfPitch(PitchOf7100(d)))] IN [i \in 1 .. 88 |-> d[m[i - 1] + 1]]
=============================================================================
