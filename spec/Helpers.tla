----------------------------------- MODULE Helpers -----------------------------------
(***************************************************************************)
(* The small public helpers: silence, version, and the three predicates    *)
(* over a record. Rates and thresholds are single-precision numbers given  *)
(* as their 32 bits; comparing them is comparing Key of the bits, so the   *)
(* predicates are decided exactly, for every bit pattern.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences
MaxMag == 2139095040                                   \* infinity; larger magnitudes are not numbers
\* bits as a signed 32-bit integer -> a key ordered like the numbers they denote
Low(w) == IF w >= 0 THEN w ELSE (w + 2147483647) + 1
IsNum(w) == Low(w) <= MaxMag
Key(w) == IF w >= 0 THEN w ELSE -Low(w)
Above(a, b) == IsNum(a) /\ IsNum(b) /\ Key(a) > Key(b)
EntryRate == 1011666125                                \* 0.0125
ImbeMuting == 1035154227                               \* 0.0875
AmbeMuting == 1036295078                               \* 0.096
MaxRepeats == 4
RequiresMuting(rate, threshold) == Above(rate, threshold)
IsMaxRepeat(rc) == rc >= MaxRepeats
RequiresSmoothing(rate, total) == Above(rate, EntryRate) \/ total > 4
VersionRoom == 32
=============================================================================
