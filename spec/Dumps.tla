----------------------------------- MODULE Dumps -----------------------------------
(***************************************************************************)
(* What the library prints. The five dump helpers print the bits they are  *)
(* given on the error stream, one digit each: parameter bits in order,     *)
(* frame vectors from their highest cell to their lowest, grouped as each  *)
(* format groups them. Nothing else in the library prints at all.          *)
(***************************************************************************)
EXTENDS Integers, Sequences
Digit(b) == IF b = 0 THEN "0" ELSE "1"
RECURSIVE Run(_)
Run(b) == IF b = <<>> THEN "" ELSE Digit(Head(b)) \o Run(Tail(b))
\* the bits of positions i .. j - 1 (counted from 0)
Part(b, i, j) == SubSeq(b, i + 1, j)
RECURSIVE Groups(_, _)
\* groups of parameter bits starting at each of the positions in cuts, separated by blanks
Groups(b, cuts) == IF Len(cuts) < 2 THEN "" ELSE Run(Part(b, cuts[1], cuts[2])) \o (IF Len(cuts) > 2 THEN " " ELSE "") \o Groups(b, Tail(cuts))
\* cells hi .. lo of a row of a frame, downwards
Cells(fr, cols, row, hi, lo) == [k \in 1 .. (hi - lo + 1) |-> fr[row * cols + (hi - (k - 1)) + 1]]
\* a vector with its data and check bits apart (lo: the lowest data cell)
Split(fr, cols, row, hi, lo) == Run(Cells(fr, cols, row, hi, lo)) \o " " \o Run(Cells(fr, cols, row, lo - 1, 0))
Whole(fr, cols, row, hi) == Run(Cells(fr, cols, row, hi, 0))
Text(fn, b) ==
    CASE fn = "mbe_dumpImbe4400Data" -> Run(b)
      [] fn = "mbe_dumpImbe7200x4400Data" -> Groups(b, <<0, 12, 24, 36, 48, 59, 70, 81, 88>>)
      [] fn = "mbe_dumpImbe7100x4400Data" -> Groups(b, <<0, 7, 19, 31, 43, 54, 65, 88>>)
      [] fn = "mbe_dumpImbe7200x4400Frame" ->
            Whole(b, 23, 0, 22) \o " " \o Whole(b, 23, 1, 22) \o " " \o Whole(b, 23, 2, 22) \o " " \o Whole(b, 23, 3, 22) \o " "
            \o Whole(b, 23, 4, 14) \o " " \o Whole(b, 23, 5, 14) \o " " \o Whole(b, 23, 6, 14) \o " " \o Whole(b, 23, 7, 6)
      [] fn = "mbe_dumpImbe7100x4400Frame" ->
            Split(b, 24, 0, 18, 12) \o " " \o Split(b, 24, 1, 23, 12) \o " " \o Split(b, 24, 2, 22, 11) \o " " \o Split(b, 24, 3, 22, 11) \o " "
            \o Split(b, 24, 4, 14, 4) \o " " \o Split(b, 24, 5, 14, 4) \o " " \o Whole(b, 24, 6, 22)
      [] OTHER -> ""
=============================================================================
