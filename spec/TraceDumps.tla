--------------------------------- MODULE TraceDumps ---------------------------------
(* C26: what recorded calls printed. *)
EXTENDS TraceBase, Dumps
TraceInit == vLine = 1
Step(e) == /\ ChkV("printed text", e.err = Text(e.fn, e.bits), <<e.fn, e.err, Text(e.fn, e.bits)>>)
           /\ ChkV("nothing on the output stream", e.out = "", <<e.fn, e.out>>)
           /\ ChkV("bits left as they were", e.same = 1, e.fn)
TraceNext == /\ vLine <= Len(Log)
             /\ Step(Log[vLine])
             /\ vLine' = vLine + 1
=============================================================================
