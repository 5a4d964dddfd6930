-------------------------------- MODULE TraceAgain --------------------------------
(* Recorded tallies of the same calls made again and again in an order of no pattern.                                *)
EXTENDS TraceBase, Again
TraceInit == vLine = 1
Step(e) == /\ Chk("every call was made", e.made > 1)
           /\ ChkV("the same call gives the same result, whatever was called before and however often", HistoryFree(e.made, e.off),
                   <<e.what, e.made, e.off, e.at>>)
TraceNext == /\ vLine <= Len(Log)
             /\ Step(Log[vLine])
             /\ vLine' = vLine + 1
=============================================================================
