----------------------------------- MODULE DumpPcm -----------------------------------
(* Proves that the conversion is odd and monotone with the breakpoints From(n), and dumps the breakpoints for the    *)
(* replay over every float.                                                                                          *)
EXTENDS Pcm, IOUtils, Json
VARIABLE vN
Up(x) == SFAdd(x, SFScalb(x, -27))
Down(x) == SFSub(x, SFScalb(x, -27))
Seven(x) == SFMul(SFInt(7), x)
Init == vN \in 1 .. Limit
Next == UNCHANGED vN
\* just above the breakpoint the value is n, just below it n - 1; negation negates; the float range stays inside
Inv == /\ Cut(Seven(Up(From(vN)))) = vN /\ Cut(Seven(Down(From(vN)))) = vN - 1
       /\ Cut(SFNeg(Seven(Up(From(vN))))) = -vN /\ Cut(SFNeg(Seven(Down(From(vN))))) = 1 - vN
       /\ SFLt(From(vN), ClipLevel)
ASSUME Limit = 31128 /\ Cut(Seven(ClipLevel)) = Limit /\ Cut(Seven(SFInt(1000000))) = Limit /\ Cut(Zero) = 0
ASSUME Limit * 100 <= 32767 * 95
ASSUME JsonSerialize(IOEnv.OUT, [n \in 1 .. Limit |-> From(n)])
=============================================================================
