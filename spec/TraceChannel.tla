------------------------------ MODULE TraceChannel ------------------------------
(* C03: every recorded reception of a frame delivers what the channel layer of the specification prescribes. *)
EXTENDS TraceBase, Channel
TraceInit == vLine = 1
\* events: "steps" = the public decoding steps one by one; "entry" = the frame entry point (IMBE 7100 delivers the
\* parameter set in the 7200 layout); "sent" = the payload put on the air, when the errors were within capability.
Expected(e, r) == IF e.op = "entry" /\ e.k = "i71" THEN Convert(r.bits) ELSE r.bits
Step(e) ==
    LET r == TLCEval(Receive(e.k, e.fr))
    IN /\ ChkV("first-vector count", e.c0 = r.errs, <<e.k, e.op, e.c0, r.errs>>)
       /\ ChkV("total count", e.total = r.total, <<e.k, e.op, e.total, r.total>>)
       /\ ChkV("parameter bits", e.bits = Expected(e, r),
               <<e.k, e.op, {i - 1 : i \in {j \in 1 .. NBits(e.k) : e.bits[j] # Expected(e, r)[j]}}>>)
       /\ ("sent" \in DOMAIN e) => Chk("sent payload recovered", r.bits = e.sent)
TraceNext == /\ vLine <= Len(Log)
             /\ Step(Log[vLine])
             /\ vLine' = vLine + 1
=============================================================================
