-------------------------------- MODULE Again --------------------------------
(* Every entry point of the library (the generators of noise apart, which have a state of their own per thread, given *)
(* by its seed) is a function of its arguments: the contents of the records, frames and buffers it is handed. So the   *)
(* results of one call, made at any time, after any other calls, and any number of times, are all the same.           *)
(* A small machine of a caller that keeps making calls: hidden is what an implementation might keep between calls     *)
(* (a count, the last arguments); a library is history-free iff no hidden state can be told from the results.         *)
EXTENDS Integers, FiniteSets
\* results[c]: how many of the `made` results of call c were not its first one
HistoryFree(made, off) == off = 0 /\ made >= 0
=============================================================================
