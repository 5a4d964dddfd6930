--------------------------------- MODULE TraceLayers ---------------------------------
(* C20: two decodes of the same frames from equal states: x through the float frame entry point, y split as the program *)
(* says. `diff` lists every place where outputs or records differ (empty when they are bit for bit the same).           *)
EXTENDS TraceBase, Layers
T == INSTANCE Received
P == INSTANCE Pcm
TraceInit == vLine = 1
\* equal, or floats of equal value up to single-precision rounding
Rounding(d) == d.f = 1 /\ SFIsFinite(d.a) /\ SFIsFinite(d.b) /\ SFNear(SFFromBits(d.a), SFFromBits(d.b), SFFrac(1, 1000), SFFrac(1, 100000))
Equal(diff) == \A i \in 1 .. Len(diff) : ChkV("same result", Rounding(diff[i]), diff[i])
Twin(e) == /\ Chk("160 samples", Len(e.y16) = 160)
           /\ ChkV("16-bit twin", e.y16 = e.conv \/ \A i \in 1 .. 160 : e.y16[i] \in P!Allowed(SFFromBits(e.xf[i])), "samples")
Frame(e) ==
    LET fam == T!Fam(e)
        same == e.how = "F" \/ SameContext(fam, T!Cls(e), e.errs, e.errs2, e.c4, T!EnoughSet(e))
    IN \* the driver says whether it compared; the specification says when it must
       /\ ChkV("entry points compose", same => (/\ e.sd = 1 /\ e.sc = 1 /\ e.st = 1), <<e.codec, e.how, e.sd, e.sc, e.st, e.text>>)
       /\ Chk("parameter bits and counts compose in any context", e.sd = 1 /\ e.sc = 1)
       /\ same => Equal(e.diff)
       /\ (same /\ e.fmt = "s") => Twin(e)
TraceNext == /\ vLine <= Len(Log)
             /\ LET e == Log[vLine] IN IF e.op = "frame" THEN Frame(e) ELSE Twin(e)
             /\ vLine' = vLine + 1
=============================================================================
