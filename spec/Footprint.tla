---------------------------------- MODULE Footprint ----------------------------------
(***************************************************************************)
(* What each public entry point may write, argument by argument.           *)
(*   In            nothing (a read-only input)                             *)
(*   Out           anything inside the buffer (an output)                  *)
(*   Bytes(a, b)   bytes a .. b of the buffer                              *)
(*   Text          the status text: bytes 0 .. errs2 + 2                   *)
(*   Rec(S)        the fields S of a record                                *)
(*   Scratch       entries of log2Ml and Ml outside the bands 1 .. L       *)
(*   Band(S, T)    the fields S, and of the fields T entries 1 .. L only   *)
(* Reading is bounded by what is given: the recorder hands every argument  *)
(* over in memory that ends where the argument ends, and anything the      *)
(* sanitizers report has no place in the specification's transitions.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
R(k, a, b, f, g) == [k |-> k, a |-> a, b |-> b, f |-> f, g |-> g]
In == R("bytes", 0, -1, {}, {})
Out == R("bytes", 0, 100000, {}, {})
Bytes(a, b) == R("bytes", a, b, {}, {})
Text == R("text", 0, 0, {}, {})
Rec(S) == R("rec", 0, 0, S, {})
Scratch == R("scratch", 0, 0, {}, {"log2Ml", "Ml"})
Band(S, T) == R("band", 0, 0, S, T)
Fields == {"w0", "L", "K", "Vl", "Ml", "log2Ml", "PHIl", "PSIl", "gamma", "un", "repeat", "swn", "localEnergy", "amplitudeThreshold", "errorRate",
           "errorCountTotal", "errorCount4", "repeatCount", "mutingThreshold", "previousUw", "noiseSeed", "noiseOverlap"}
AnyRec == Rec(Fields)
NoRec == Rec({})
Model == {"w0", "L", "K", "Vl", "Ml", "log2Ml", "gamma"}
Rendering == {"Ml", "Vl", "PHIl", "PSIl", "localEnergy", "amplitudeThreshold", "previousUw", "noiseSeed", "noiseOverlap"}
Counters == {"repeat", "repeatCount"}
FrameFns == {"mbe_processImbe7200x4400Framef", "mbe_processImbe7200x4400Frame", "mbe_processImbe7100x4400Framef", "mbe_processImbe7100x4400Frame",
             "mbe_processAmbe3600x2450Framef", "mbe_processAmbe3600x2450Frame", "mbe_processAmbe3600x2400Framef", "mbe_processAmbe3600x2400Frame"}
DataFns == {"mbe_processImbe4400Dataf", "mbe_processImbe4400Data", "mbe_processAmbe2450Dataf", "mbe_processAmbe2450Data", "mbe_processAmbe2400Dataf", "mbe_processAmbe2400Data"}
Blocks == {"mbe_golay2312", "mbe_hamming1511", "mbe_7100x4400hamming1511", "mbe_floattoshort"}
Dumps == {"mbe_dumpImbe4400Data", "mbe_dumpImbe7200x4400Data", "mbe_dumpImbe7100x4400Data", "mbe_dumpImbe7200x4400Frame", "mbe_dumpImbe7100x4400Frame"}
First(cols) == <<Bytes(0, cols - 1)>>                  \* the first vector of a frame
Rest(cols) == <<Bytes(cols, 100000)>>                  \* all other vectors
Sig(fn) ==
    CASE fn \in FrameFns -> <<Out, Out, Out, Text, Out, Out, AnyRec, AnyRec, AnyRec>>
      [] fn \in DataFns -> <<Out, In, In, Text, In, AnyRec, AnyRec, AnyRec>>
      [] fn \in Blocks -> <<In, Out>>
      [] fn \in Dumps -> <<In>>
      [] fn = "mbe_checkGolayBlock" -> <<Out>>
      [] fn = "mbe_eccImbe7200x4400C0" -> First(23)
      [] fn \in {"mbe_eccImbe7100x4400C0", "mbe_eccAmbe3600x2450C0", "mbe_eccAmbe3600x2400C0"} -> First(24)
      [] fn = "mbe_demodulateImbe7200x4400Data" -> Rest(23)
      [] fn \in {"mbe_demodulateImbe7100x4400Data", "mbe_demodulateAmbe3600x2450Data", "mbe_demodulateAmbe3600x2400Data"} -> Rest(24)
      [] fn \in {"mbe_eccImbe7200x4400Data", "mbe_eccImbe7100x4400Data", "mbe_eccAmbe3600x2450Data", "mbe_eccAmbe3600x2400Data"} -> <<Out, Out>>
      [] fn \in {"mbe_decodeImbe4400Parms", "mbe_decodeAmbe2450Parms", "mbe_decodeAmbe2400Parms"} -> <<In, Rec(Model \cup Counters), Scratch>>
      [] fn = "mbe_convertImbe7100to7200" -> <<Out>>
      [] fn = "mbe_printVersion" -> <<Bytes(0, 31)>>
      [] fn = "mbe_setThreadRngSeed" -> <<>>
      [] fn = "mbe_moveMbeParms" -> <<NoRec, AnyRec>>
      [] fn = "mbe_useLastMbeParms" -> <<AnyRec, NoRec>>
      [] fn = "mbe_initMbeParms" -> <<AnyRec, AnyRec, AnyRec>>
      [] fn = "mbe_spectralAmpEnhance" -> <<Band({}, {"Ml"})>>
      [] fn = "mbe_synthesizeTonef" \/ fn = "mbe_synthesizeTonefdstar" -> <<Out, In, Rec({"swn", "un"})>>
      [] fn \in {"mbe_synthesizeSilencef", "mbe_synthesizeSilence", "mbe_synthesizeComfortNoisef", "mbe_synthesizeComfortNoise"} -> <<Out>>
      [] fn \in {"mbe_synthesizeSpeechf", "mbe_synthesizeSpeech"} -> <<Out, Rec(Rendering), Rec({"Ml", "Vl", "PSIl"})>>
      [] fn \in {"mbe_requiresMuting", "mbe_isMaxFrameRepeat", "mbe_requiresAdaptiveSmoothing"} -> <<NoRec>>
      [] fn = "mbe_applyAdaptiveSmoothing" -> <<Band({"localEnergy", "amplitudeThreshold"}, {"Ml", "Vl"}), NoRec>>
\* A change is <<field, first, last>> in a record (L: its band count before and after), <<first, last>> in a buffer.
OnlyScratch(c, L) == c[1] \in {"log2Ml", "Ml"} /\ (c[2] = 0 \/ c[2] > L) /\ (c[3] = 0 \/ c[3] > L)
Within(role, x, errs2) ==
    CASE role.k = "bytes" -> x.rec = 0 /\ (x.ch[1] = -1 \/ (x.ch[1] >= role.a /\ x.ch[2] <= role.b))
      [] role.k = "text" -> x.rec = 0 /\ x.ch[2] <= errs2 + 2
      [] role.k = "rec" -> x.rec = 1 /\ \A i \in 1 .. Len(x.ch) : x.ch[i][1] \in role.f
      [] role.k = "scratch" -> x.rec = 1 /\ \A i \in 1 .. Len(x.ch) : OnlyScratch(x.ch[i], x.L[1])
      [] role.k = "band" -> x.rec = 1 /\ \A i \in 1 .. Len(x.ch) :
            x.ch[i][1] \in role.f \/ (x.ch[i][1] \in role.g /\ x.ch[i][2] >= 1 /\ x.ch[i][3] <= x.L[1])
=============================================================================
