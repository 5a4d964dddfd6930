------------------------------- MODULE GenChannel -------------------------------
(* Sends the payloads of IOEnv.JOBS over the specification's own transmitter and channel, checks that reception     *)
(* recovers them, and writes the received frames for replay into the library.                                      *)
EXTENDS Channel, Json, IOUtils
VARIABLE vJob
Jobs == TLCEval(ndJsonDeserialize(IOEnv.JOBS))       \* [k, bits, err (cells hit, 1-based)]
Hit(fr, es) == [c \in 1 .. Len(fr) |-> IF \E i \in 1 .. Len(es) : es[i] = c THEN 1 - fr[c] ELSE fr[c]]
OnAir == TLCEval([i \in 1 .. Len(Jobs) |-> TLCEval(Transmit(Jobs[i].k, Jobs[i].bits))])
Received == TLCEval([i \in 1 .. Len(Jobs) |-> TLCEval(Hit(OnAir[i], Jobs[i].err))])
Init == vJob \in 1 .. Len(Jobs)
Next == UNCHANGED vJob
\* number of hits in a vector's cells
Hits(k, v, es) == Cardinality({i \in 1 .. Len(es) : \E b \in 0 .. v[3] - 1 : es[i] = Cell(k, v[1], v[2] - b)})
Cap(v) == CASE v[4] \in {"g", "s"} -> 3 [] v[4] \in {"h", "j"} -> 1 [] OTHER -> 0
Within(j) == \A i \in 1 .. Len(Vectors(j.k)) : Hits(j.k, Vectors(j.k)[i], j.err) <= Cap(Vectors(j.k)[i])
Inv == LET j == Jobs[vJob] r == Receive(j.k, Received[vJob]) IN
         /\ Within(j)
         /\ r.bits = j.bits
         /\ (j.err = <<>>) => r.total = 0
         /\ r.total <= Len(j.err)
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1 .. Len(Jobs) |-> [k |-> Jobs[i].k, sent |-> Jobs[i].bits, fr |-> Received[i]]])
=============================================================================
