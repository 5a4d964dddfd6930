------------------------------------ MODULE Tone ------------------------------------
(***************************************************************************)
(* Tone frames: index -> one or two frequencies, level -> amplitude, and   *)
(* two 32-bit phase accumulators that carry each tone across frames.       *)
(* A turn of the phase is 2^32; accumulators are signed 32-bit numbers.    *)
(***************************************************************************)
EXTENDS SF, TLC
\* frequencies in quarters of a Hz, <<f, f>> for a single tone, <<>> for no tone
Single(id) == <<125 * id, 125 * id>>
Dual == [ dtmf |-> << <<1336, 941>>, <<1209, 697>>, <<1336, 697>>, <<1477, 697>>, <<1209, 770>>, <<1336, 770>>, <<1477, 770>>,
                      <<1209, 852>>, <<1336, 852>>, <<1477, 852>>, <<1633, 697>>, <<1633, 770>>, <<1633, 852>>, <<1633, 941>>,
                      <<1209, 941>>, <<1477, 941>> >>,                              \* 128..143: 0-9, A-D, star, hash
          knox |-> << <<1162, 820>>, <<1052, 606>>, <<1162, 606>>, <<1279, 606>>, <<1052, 672>>, <<1162, 672>>, <<1279, 672>>,
                      <<1052, 743>>, <<1162, 743>>, <<1279, 743>>, <<1430, 606>>, <<1430, 672>>, <<1430, 743>>, <<1430, 820>>,
                      <<1052, 820>>, <<1279, 820>> >>,                              \* 144..159
          call |-> << <<440, 350>>, <<480, 440>>, <<620, 480>>, <<490, 350>> >> ]   \* 160..163 call progress
Hz(p) == <<p[1] * 4, p[2] * 4>>
Freqs(id) == CASE id \in 5 .. 122 -> Single(id)
               [] id \in 128 .. 143 -> Hz(Dual.dtmf[id - 127])
               [] id \in 144 .. 159 -> Hz(Dual.knox[id - 143])
               [] id \in 160 .. 163 -> Hz(Dual.call[id - 159])
               [] OTHER -> <<>>
\* the D-STAR codec has single tones only, all at one level
StarFreqs(id) == IF id \in 5 .. 122 THEN Single(id) ELSE <<>>
StarLevel == 103
ClipLevel == SFDiv(SFMul(SFInt(32767), SFFrac(95, 100)), SFInt(7))
Gain(level) == SFMul(SFFrac(level, 127), ClipLevel)
\* phase step per sample: f / 8000 of 2^32 rounded, f = q / 4 Hz:  q * 2^32 / 32000 = q * 134217.728
Step(q) == q * 134217 + (q * 728 + 500) \div 1000
\* bits of the frame: the level's last bit is far from the others
Level(d) == 64 * d[7] + 32 * d[8] + 16 * d[9] + 8 * d[10] + 4 * d[11] + 2 * d[12] + d[45]
Id(d) == 128 * d[13] + 64 * d[14] + 32 * d[15] + 16 * d[16] + 8 * d[17] + 4 * d[18] + 2 * d[19] + d[20]
\* a 32-bit accumulator as an angle
Turn == SFScalb(SFPi, -31)
Angle(p) == SFMul(SFInt(p), Turn)
\* sin(x - pi/2) = -cos(x)
Osc(p, q) == VScale(SFInt(-1), VOsc(SFAdd(Angle(p), Angle(Step(q))), SFMul(SFInt(Step(q)), Turn), 0, 160))
Samples(fs, gain, p1, p2) ==
    IF fs[1] = fs[2] THEN VScale(gain, Osc(p1, fs[1]))
    ELSE VScale(SFScalb(gain, -1), VAdd(Osc(p1, fs[1]), Osc(p2, fs[2])))
RECURSIVE Times(_, _, _)
\* p after n steps, with wrap-around
Times(p, st, n) == IF n = 0 THEN p ELSE Times(AddWrap32(p, st), st, n - 1)
After(p, q) == Times(p, Step(q), 160)
=============================================================================
