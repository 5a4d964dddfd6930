--------------------------------- MODULE TraceHelpers ---------------------------------
(* C25: recorded calls of the helpers. *)
EXTENDS TraceBase, Helpers
TraceInit == vLine = 1
Zeros(n) == [i \in 1 .. n |-> 0]
NulAt(s) == CHOOSE i \in 1 .. Len(s) : s[i] = 0 /\ \A j \in 1 .. i - 1 : s[j] # 0
Silence(e) == /\ ChkV("silence", e.out = Zeros(160), e.fn) /\ ChkV("nothing around it written", e.guard = 1, e.fn)
Version(e) == /\ ChkV("at most 32 bytes", e.guard = 1, e.buf)
              /\ ChkV("terminated", \E i \in 1 .. VersionRoom : e.buf[i] = 0, e.buf)
              /\ ChkV("helpers agree", LET n == NulAt(e.buf) IN
                        /\ n <= Len(e.str) + 1 /\ SubSeq(e.buf, 1, n - 1) = SubSeq(e.str, 1, n - 1) /\ (n < VersionRoom => n = Len(e.str) + 1), <<e.buf, e.str>>)
              /\ ChkV("the headers' version", e.macro = e.str /\ Len(e.str) > 0, <<e.macro, e.str>>)
              /\ Chk("stable string", e.again = 1)
Predicates(e) == /\ ChkV("muting predicate", (e.muting # 0) <=> RequiresMuting(e.rate, e.thr), e)
                 /\ ChkV("repeat predicate", (e.maxrep # 0) <=> IsMaxRepeat(e.rc), e)
                 /\ ChkV("smoothing predicate", (e.smooth # 0) <=> RequiresSmoothing(e.rate, e.total), e)
                 /\ Chk("record unchanged", e.same = 1)
\* a call with a null argument: what it returned (0 where nothing is returned) and what it did to the other arguments
Null(e) == /\ ChkV("returns zero for null", e.ret = 0, e.fn)
           /\ ChkV("other arguments untouched", e.same = 1, e.fn)
           /\ ChkV("silence without a record", e.out = Zeros(Len(e.out)), e.fn)
TraceNext == /\ vLine <= Len(Log)
             /\ LET e == Log[vLine] IN CASE e.op = "silence" -> Silence(e) [] e.op = "version" -> Version(e) [] e.op = "pred" -> Predicates(e)
                                         [] OTHER -> Null(e)
             /\ vLine' = vLine + 1
=============================================================================
