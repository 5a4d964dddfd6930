--------------------------------- MODULE TraceStreams ---------------------------------
(* C21: recorded calls of many streams on several threads, in several places. vF is what is known of F; vState is the    *)
(* state each stream was left in by its own last call (or restore).                                                     *)
EXTENDS TraceBase, Streams, SF
VARIABLES vF, vState, vSaved
vars == <<vF, vState, vSaved>>
TraceInit == vLine = 1 /\ vF = <<>> /\ vState = <<>> /\ vSaved = <<>>
Key(e) == <<e.fn, e.in, e.pre, e.seed>>
\* results recorded for steps smaller than a frame may differ by rounding (they are compared number by number)
Close(a, b) == a = b \/ (Len(a) = Len(b) /\ VFinite(a) /\ VFinite(b) /\ VNear(VBits(a), VBits(b), SFFrac(1, 1000), SFFrac(1, 10000)))
Agree(e, r) == /\ ChkV("same state and text", e.post = r.post, <<e.fn, e.s, e.th, e.seed, r>>)
               /\ ChkV("same audio", e.pcm = r.pcm, <<e.fn, e.s, e.th, e.seed, r>>)
               /\ ChkV("same numbers", Close(e.num, r.num), <<e.fn, e.s, e.th, r>>)
Learn(e) == IF Key(e) \in DOMAIN vF THEN Agree(e, vF[Key(e)]) /\ UNCHANGED vF
            ELSE vF' = vF @@ (Key(e) :> [post |-> e.post, pcm |-> e.pcm, num |-> e.num])
Call(e) == /\ ChkV("only its own calls change a stream", e.s \notin DOMAIN vState \/ vState[e.s] = e.pre, <<e.s, e.th>>)
           /\ Learn(e)
           /\ vState' = (e.s :> e.post) @@ vState /\ UNCHANGED vSaved
\* a step on scratch records that belong to no stream
Scratch(e) == Learn(e) /\ UNCHANGED <<vState, vSaved>>
Save(e) == /\ ChkV("saved what the stream was left in", e.s \notin DOMAIN vState \/ vState[e.s] = e.pre, e.s)
           /\ vSaved' = (e.s :> e.pre) @@ vSaved /\ UNCHANGED <<vF, vState>>
Restore(e) == /\ ChkV("a snapshot is restored unchanged", e.pre = vSaved[e.s], e.s)
              /\ vState' = (e.s :> e.pre) @@ vState /\ UNCHANGED <<vF, vSaved>>
\* a stream is started over for another run
Start(e) == vState' = (e.s :> e.pre) @@ vState /\ vSaved' = (e.s :> e.pre) @@ vSaved /\ UNCHANGED vF
\* streams of all codecs started and run at once on threads of their own: calls share no memory
Threads(e) == ChkV("threads share nothing", e.rc = 0 /\ e.report = "", e) /\ UNCHANGED vars
TraceNext == /\ vLine <= Len(Log)
             /\ LET e == Log[vLine] IN CASE e.op = "call" -> Call(e) [] e.op = "scratch" -> Scratch(e) [] e.op = "save" -> Save(e)
                                         [] e.op = "restore" -> Restore(e) [] e.op = "threads" -> Threads(e) [] OTHER -> Start(e)
             /\ vLine' = vLine + 1
=============================================================================
