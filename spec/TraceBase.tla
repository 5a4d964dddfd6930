-------------------------------- MODULE TraceBase --------------------------------
(* What every trace specification shares: the recorded events, the position in them, and the verdict.              *)
(* The log is accepted iff some behaviour of the trace specification consumes all of it.                           *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils
VARIABLE vLine
Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
\* a named conjunct: says which rule an event breaks
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, vLine>>) /\ FALSE
ChkV(name, cond, detail) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, vLine, detail>>) /\ FALSE
Verdict == LET done == TLCGet("stats").diameter - 1
           IN IF done >= Len(Log) THEN PrintT("TRACE-ACCEPTED")
              ELSE PrintT(<<"TRACE-REJECTED", done + 1, "of", Len(Log)>>) /\ FALSE
=============================================================================
