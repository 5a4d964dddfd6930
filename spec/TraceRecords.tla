--------------------------------- MODULE TraceRecords ---------------------------------
(* C22: recorded programs over a stream's records. vRec maps each slot to the identity of its exact contents and its kind. *)
EXTENDS TraceBase, Records, SF
VARIABLE vRec
TraceInit == vLine = 1 /\ vRec = <<>>
FOne == 1065353216
WIs(w, x, t) == SFIsFinite(w) /\ SFNear(SFFromBits(w), x, Zero, t)
Eps == SFFrac(1, 2000000)
AllIs(s, n, v) == Len(s) = n /\ \A i \in 1 .. n : s[i] = v
Zs(s, n) == Len(s) = n /\ \A i \in 1 .. n : s[i] = 0 \/ s[i] = (-2147483647 - 1)
\* the documented start state, field by field (floats as bits; r.x are whole fields)
Common(r) == /\ AllIs(r.Ml, 57, FOne) /\ AllIs(r.Vl, 57, 0) /\ Zs(r.log2Ml, 57) /\ Zs(r.PHIl, 57) /\ Zs(r.PSIl, 57)
             /\ Zs(<<r.gamma>>, 1) /\ r.un = 0 /\ r.repeat = 0 /\ r.swn = 0
             /\ WIs(r.localEnergy, SFInt(75000), Eps) /\ r.amplitudeThreshold = 20480
             /\ Zs(<<r.errorRate>>, 1) /\ r.errorCountTotal = 0 /\ r.errorCount4 = 0 /\ r.repeatCount = 0
             /\ r.noiseSeed = -1082130432 /\ Zs(r.noiseOverlap, 96) /\ Zs(r.previousUw, 256)
ImbeStart(r) == /\ Common(r) /\ WIs(r.w0, SFDiv(SFScalb(SFPi, 3), SFInt(347)), Eps) /\ r.L = 39 /\ r.K = 12
                /\ WIs(r.mutingThreshold, SFFrac(875, 10000), Eps)
\* w0 = (pi/32) * 2 pi
AmbeStart(r) == /\ Common(r) /\ WIs(r.w0, SFScalb(SFMul(SFPi, SFPi), -4), Eps) /\ r.L = 15 /\ r.K = 0
                /\ WIs(r.mutingThreshold, SFFrac(96, 1000), Eps)
Slot(e, i) == [kind |-> vRec[e.at[i]].kind, id |-> e.ids[i]]
Put(s, k, id) == (s :> [kind |-> k, id |-> id]) @@ vRec
Fill(e) == vRec' = Put(e.at[1], "junk", e.ids[1])
\* every slot an operation does not write keeps its contents: checked when it is next read
Known(e, s, id) == ChkV("contents kept since", vRec[s].id = id, <<e.op, s>>)
InitOp(e) == /\ ChkV("three equal records", e.ids[1] = e.ids[2] /\ e.ids[2] = e.ids[3], e.ids)
             /\ ChkV("the start state", ImbeStart(e.rec), e.rec)
             /\ vRec' = (e.at[1] :> [kind |-> "start", id |-> e.ids[1]]) @@ (e.at[2] :> [kind |-> "start", id |-> e.ids[1]]) @@ (e.at[3] :> [kind |-> "start", id |-> e.ids[1]]) @@ vRec
Copy(e) == /\ Known(e, e.from, e.was)
           /\ ChkV("source unchanged", e.src = e.was, e.op)
           /\ ChkV("copied whole", e.dst = e.was, e.op)
           /\ vRec' = Put(e.to, vRec[e.from].kind, e.was)
\* a frame; e.twin is the same frame on records constructed as a properly started AMBE stream
Frame(e) == LET k == vRec[e.at[2]].kind IN
    /\ \A i \in 1 .. 3 : Known(e, e.at[i], e.pre[i])
    /\ Chk("program is legal", Decodable(k))
    /\ IF Normalises(e.codec, k)
       THEN ChkV("normalised before its first frame", e.twin.ids = e.post /\ e.twin.out = e.out, <<e.codec, e.kind, k, e.str, e.twin.str>>)
       ELSE TRUE
    /\ vRec' = (e.at[1] :> [kind |-> Leaves(e.codec), id |-> e.post[1]]) @@ (e.at[2] :> [kind |-> Leaves(e.codec), id |-> e.post[2]]) @@ (e.at[3] :> [kind |-> Leaves(e.codec), id |-> e.post[3]]) @@ vRec
\* a properly started stream and one started for IMBE, fed the same frames for a while
Twin(e) == /\ ChkV("outputs alike", e.a.out = e.b.out, <<e.codec, e.n, e.a.str, e.b.str>>) /\ ChkV("states alike", e.a.ids = e.b.ids, <<e.codec, e.n>>) /\ UNCHANGED vRec
\* an AMBE stream muted after too many repeats starts over, whatever it went through
Reset(e) == /\ ChkV("muted", e.n < 6 /\ Len(e.str) > 1, <<e.codec, e.str>>)
            /\ ChkV("the AMBE start state", AmbeStart(e.rec), <<e.codec, e.rec>>)
            /\ ChkV("all three records start over", e.ids = e.fresh, <<e.codec, e.ids, e.fresh>>)
            /\ UNCHANGED vRec
TraceNext == /\ vLine <= Len(Log)
             /\ LET e == Log[vLine] IN CASE e.op = "junk" -> Fill(e) [] e.op = "init" -> InitOp(e) [] e.op \in {"move", "use"} -> Copy(e)
                                         [] e.op = "twin" -> Twin(e) [] e.op = "reset" -> Reset(e) [] OTHER -> Frame(e)
             /\ vLine' = vLine + 1
=============================================================================
