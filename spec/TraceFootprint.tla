-------------------------------- MODULE TraceFootprint --------------------------------
(* C24: every recorded call wrote only what the specification lets it write. A process that ended with a report has an   *)
(* "abort" event, and no transition is an abort.                                                                        *)
EXTENDS TraceBase, Footprint
VARIABLE vCalls
TraceInit == vLine = 1 /\ vCalls = {}
\* the value of the total error count that sizes the status text
Errs2(e) == IF e.fn \in FrameFns \cup DataFns THEN e.args[3].v ELSE 0
Call(e) == LET sig == Sig(e.fn) IN
    /\ ChkV("arguments", Len(sig) = Len(e.args), e)
    /\ \A i \in 1 .. Len(sig) : ChkV("writes only what it may", IF e.args[i].seen = 0 THEN TRUE ELSE Within(sig[i], e.args[i], Errs2(e)), <<e.fn, "argument", i, e.args[i]>>)
    /\ vCalls' = vCalls \cup {e.fn}
TraceNext == /\ vLine <= Len(Log)
             /\ LET e == Log[vLine] IN CASE e.op = "call" -> Call(e) [] e.op = "cfg" -> UNCHANGED vCalls [] OTHER -> ChkV("no undefined operation, no access outside the arguments", FALSE, e)
             /\ vLine' = vLine + 1
=============================================================================
