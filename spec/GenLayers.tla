---------------------------------- MODULE GenLayers ----------------------------------
(* Every way of splitting the decode of Depth frames (dumped for the driver), and the proof that, where the context    *)
(* is the same, the concealment machine does the same through both ways.                                               *)
EXTENDS Layers, TLC, Json
VARIABLE vWay
Depth == 3
Classes(fam) == CASE fam = "imbe" -> {"voice", "reserved"} [] fam = "a50" -> {"voice", "silence", "erasure", "tone"} [] OTHER -> {"voice", "tone", "badtone"}
ASSUME \A fam \in {"imbe", "a50", "a00"} : \A cls \in Classes(fam) : \A c0 \in 0 .. 4 : \A total \in c0 .. 14 : \A en, ov, valid \in BOOLEAN : \A rc \in 0 .. 4 :
          SameContext(fam, cls, c0, total, 0, {en}) => Outcome(fam, "F", cls, valid, c0, total, en, rc, ov) = Outcome(fam, "D", cls, valid, c0, total, en, rc, ov)
\* and the context matters somewhere (the condition is not vacuous)
ASSUME \E c0 \in 0 .. 3, total \in 0 .. 12 : ~SameContext("a50", "voice", c0, total, 0, {TRUE})
Init == vWay = <<>>
Next == \E w \in Ways : Len(vWay) < Depth /\ vWay' = Append(vWay, w)
Inv == Len(vWay) = Depth => PrintT(ToJson(vWay))
=============================================================================
