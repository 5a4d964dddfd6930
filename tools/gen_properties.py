#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

I72, I71 = "src/imbe/imbe7200x4400.c", "src/imbe/imbe7100x4400.c"
A50, A00, ACM = "src/ambe/ambe3600x2450.c", "src/ambe/ambe3600x2400.c", "src/ambe/ambe_common.c"
CORE, ADA, UFF = "src/core/mbelib.c", "src/core/mbe_adaptive.c", "src/core/mbe_unvoiced_fft.c"
ECC, ECCC, API = "src/ecc/ecc.c", "src/ecc/ecc_const.c", "include/mbelib-neo/mbelib.h"

p("C01", "Golay(23,12) decoding corrects every error pattern of up to three bits",
  "Decoding any received 23-bit word yields the twelve data bits of the unique codeword that lies within three bit flips of it, and reports exactly how many of those twelve data positions were changed. The packed-integer form of the decoder gives the same twelve-bit result whatever the bits above the 23rd contain, and decoding touches nothing but its output.",
  ["inputs"], "all 2^23 received words (all 4096 data words x all 2048 error patterns of weight <= 3), any upper bits",
  "the unit test decodes a handful of words; the decoder is a 2048-entry table, so one wrong entry goes unseen unless the word that uses it is tried",
  [ECC, ECCC], [("generator matrix + syndrome table lookup", ECC + ": mbe_checkGolayBlock, mbe_golay2312"), ("tables", ECCC + ": golayGenerator, golayMatrix")],
  observe=["mbe_checkGolayBlock", "mbe_golay2312"])
p("C02", "Both (15,11) Hamming decoders correct every single-bit error",
  "For each of the two (15,11) Hamming arrangements, every received 15-bit word is decoded to the unique codeword at distance at most one. A codeword comes back unchanged with a count of zero, and every other word comes back corrected in exactly one position with a count of one.",
  ["inputs"], "all 2^15 received words, for both arrangements",
  "tests try a few words per arrangement; the syndrome-to-bit tables have 15 entries each, any of which can be wrong for one position only",
  [ECC, ECCC], [("syndrome table", ECC + ": mbe_hamming1511, mbe_7100x4400hamming1511")],
  observe=["mbe_hamming1511", "mbe_7100x4400hamming1511"])
p("C03", "Channel decoding recovers the sent bits and counts the corrections",
  "For each of the four frame formats, a frame carrying any parameter bits, protected and scrambled as the format prescribes and then hit by any errors within the codes' capability, is decoded back to exactly those parameter bits. For every received frame whatsoever, the reported first-vector count and total count are the numbers of corrections made in the first vector and in all protected vectors, and the unprotected bits are delivered as received.",
  ["inputs", "fault_sequences"], "all parameter payloads, all channel error patterns (within and beyond capability), the four frame formats",
  "tests decode a few fixed frames; the path depends on every vector position, on the descrambling seed recovered from the corrected first vector and on per-vector error counts",
  [I72, I71, A50, A00, ACM, ECC], [("per-codec C0 + data ECC and packing", I72 + ": mbe_eccImbe7200x4400C0/Data; " + I71 + ": mbe_eccImbe7100x4400C0/Data; " + ACM + ": mbe_eccAmbe3600C0_common, mbe_eccAmbe3600Data_common")],
  observe=["mbe_ecc*C0", "mbe_ecc*Data", "*errs, *errs2 and the parameter bits of mbe_process*Framef"])
p("C04", "Descrambling is the prescribed involution keyed only by the first vector",
  "For each frame format, descrambling flips exactly the bits selected by the pseudo-random sequence that the first vector's leading bits seed, so applying it twice restores the frame. The first vector and every bit outside the scrambled vectors are left untouched, and the sequence depends on nothing else.",
  ["inputs"], "all 4096 (128 for the 7100 format) seeds, all frame contents, the four frame formats",
  "a test that demodulates one frame exercises one of 4096 sequences and one content; a wrong recurrence or an off-by-one run of bits shows only for particular seeds or positions",
  [I72, I71, ACM], [("LCG x -> 173x+13849 mod 65536, top bit", I72 + ": mbe_demodulateImbe7200x4400Data; " + I71 + ": mbe_demodulateImbe7100x4400Data; " + ACM + ": mbe_demodulateAmbe3600Data_common")],
  observe=["mbe_demodulate*Data"])
p("C05", "Conversion from the 7100 to the 7200 parameter layout loses nothing",
  "Converting an 88-bit parameter set from the 7100 layout to the 7200 layout is, for every value of the pitch field, a fixed rearrangement of the bits that preserves every parameter field's value, so no bit is lost, duplicated or inverted. The rearrangement depends only on the pitch field, and a set whose pitch field is out of range passes through in the way the format prescribes.",
  ["inputs"], "all 256 pitch-field values x all 2^80 remaining payloads (by linearity: all unit vectors plus random payloads)",
  "the tests convert one or two payloads; the layout changes with the number of voicing bits, which takes ten different values",
  [I71], [("K-dependent permutation", I71 + ": mbe_convertImbe7100to7200")], observe=["mbe_convertImbe7100to7200"])
p("C06", "IMBE parameter decoding follows the codec's reconstruction rule",
  "For every 88-bit parameter set with a valid pitch field and every previous-frame state, the decoded pitch, band count, voicing decisions and spectral amplitudes are those the IMBE rule derives from these bits and the previous frame's log amplitudes. A reserved pitch code is reported as invalid, and no input makes any decoded quantity leave its defined range.",
  ["inputs", "histories"], "all parameter payloads (every pitch code, voicing word, gain, PRBA and higher-order value) x all previous-frame band counts and log amplitudes",
  "golden PCM covers a handful of payloads; bit allocation differs for each of 48 band counts and interpolation differs for each (previous, current) pair of band counts",
  [I72, "src/internal/imbe7200x4400_const.h"], [("parameter reconstruction", I72 + ": mbe_decodeImbe4400Parms"), ("tables", "src/internal/imbe7200x4400_const.h")],
  [("w0,L,K,Vl,Ml,log2Ml", "decoded model", API + ": mbe_parms")], ["return value and *cur_mp of mbe_decodeImbe4400Parms"])
p("C07", "AMBE+2 (2450) parameter decoding follows the codec's reconstruction rule",
  "For every 49-bit parameter set that is a voice or silence frame and every previous-frame state, the decoded pitch, band count, voicing, gain and spectral amplitudes are those the AMBE+2 rule derives from these bits and the previous frame's gain and log amplitudes. Nothing else influences them and all of them stay inside their defined ranges.",
  ["inputs", "histories"], "all 128 pitch codes x all field values of the other eight quantisers x all previous-frame band counts, gains and log amplitudes",
  "golden PCM covers a few payloads; each quantiser has up to 512 entries and each band count its own block layout",
  [A50, "src/internal/ambe3600x2450_const.h"], [("parameter reconstruction", A50 + ": mbe_decodeAmbe2450Parms"), ("tables", "src/internal/ambe3600x2450_const.h")],
  [("w0,L,Vl,gamma,Ml,log2Ml", "decoded model", API + ": mbe_parms")], ["return value and *cur_mp of mbe_decodeAmbe2450Parms"])
p("C08", "AMBE (D-STAR 2400) parameter decoding follows the codec's rule",
  "For every 49-bit parameter set that is a voice frame and every previous-frame state, the decoded pitch, band count, voicing, gain and spectral amplitudes are those the AMBE 2400 rule derives from these bits and the previous frame's gain and log amplitudes. A tone frame is reported with the tone index its bits spell, or as an unusable tone when they spell none.",
  ["inputs", "histories"], "all pitch codes x all field values x all tone words x all previous-frame states",
  "golden PCM covers a few payloads; quantisers have up to 512 entries and tone words 4096 values",
  [A00, "src/internal/ambe3600x2400_const.h"], [("parameter reconstruction", A00 + ": mbe_decodeAmbe2400Parms"), ("tables", "src/internal/ambe3600x2400_const.h")],
  [("w0,L,Vl,gamma,Ml,log2Ml", "decoded model", API + ": mbe_parms")], ["return value and *cur_mp of mbe_decodeAmbe2400Parms"])
p("C09", "IMBE streams repeat, mute and recover exactly by the error-handling rule",
  "For every history of IMBE frames, a frame is decoded afresh or replaced by the previous frame's model exactly as the repeat rule says from its pitch code, its error counts and the running error rate; after the permitted number of consecutive repeats the model falls back to its defaults. The frame is muted to low-level comfort noise exactly when the repeat limit is reached or the running error rate is above the IMBE threshold, and the first good frame afterwards is heard again with its own parameters; muting itself leaves the stream's phases and noise as they were.",
  ["histories", "fault_sequences"], "all histories of good, invalid and damaged frames, through the frame and parameter entry points, from every reachable state",
  "tests drive a few fixed sequences; the behaviour depends on repeat counter, running error rate and which of three records a value was last copied to, so wrong copies show only after specific multi-frame histories",
  [I72, I71, CORE], [("repeat/headroom/mute logic", I72 + ": mbe_processImbe4400Dataf and its internal form"), ("mute test", CORE + ": mbe_synthesizeSpeechf; " + ADA + ": mbe_requiresMuting, mbe_isMaxFrameRepeat")],
  [("repeatCount, errorRate, errorCountTotal, errorCount4", "concealment state", API + ": mbe_parms")], ["err_str, *cur/*prev/*prev_enhanced and PCM after each mbe_processImbe* call"])
p("C10", "AMBE+2 frames are classified and concealed exactly by rule in every history",
  "For every history of AMBE+2 frames each frame is classified as voice, silence, tone or erasure exactly as its bits and error count prescribe, and damaged voice frames repeat the previous frame up to the permitted number of times before the stream is muted to comfort noise and restarted. Erasures give comfort noise and reset the model, tones never disturb the voice model, and an invalid tone replays the previous voice; every later frame is decoded against the state these rules leave behind.",
  ["histories", "fault_sequences"], "all histories over {voice, silence, valid tone, invalid tone, erasure} x error counts, through both entry points",
  "tests cover a few two- or three-frame histories; the state left by erasure, tone and repeat frames only shows in what later frames do",
  [A50, ACM], [("classification", A50 + ": mbe_decodeAmbe2450ParmsInternal"), ("concealment", A50 + ": mbe_processAmbe2450Dataf_internal; " + ACM + ": mbe_setAmbeErasureParms_common, mbe_initAmbeParms_common, mbe_ensureAmbeDefaults_common")],
  [("repeat, repeatCount, errorRate", "concealment state", API + ": mbe_parms")], ["err_str, *cur/*prev/*prev_enhanced and PCM after each mbe_processAmbe*2450* call"])
p("C11", "D-STAR AMBE frames are classified and concealed exactly by rule",
  "For every history of AMBE 2400 frames each frame is classified as voice, single tone, unusable tone or damaged exactly as its bits and error counts prescribe; damaged voice frames repeat the previous frame up to the permitted number of times before the stream is muted to comfort noise and restarted. A cleanly received single tone is heard as that tone, an unusable tone frame as comfort noise with a restarted model.",
  ["histories", "fault_sequences"], "all histories over {voice, tone 5..122, unusable tone} x error counts, through both entry points",
  "tests cover a few short histories; the state left behind only shows in later frames",
  [A00, ACM], [("classification and concealment", A00 + ": mbe_processAmbe2400Dataf and its internal form")],
  [("repeat, repeatCount, errorRate", "concealment state", API + ": mbe_parms")], ["err_str, *cur/*prev/*prev_enhanced and PCM after each mbe_processAmbe*2400* call"])
p("C12", "The status text spells the error count and what was done, nothing more",
  "After every processed frame the status text is a terminated string of one '=' per counted error followed only by the marks of what was done with the frame (E erasure, T tone, R repeat, M mute), each at most once and in the documented combinations. It never needs more room than the documented error count plus three bytes, and its marks agree with how the frame was actually rendered.",
  ["inputs", "histories"], "all frames and error counts, all codecs, both entry points, all stream states",
  "tests look at a few strings; mark combinations depend on the stream's history",
  [I72, A50, A00], [("status writing", I72 + ", " + A50 + ", " + A00 + ": process*Dataf internals")], observe=["err_str of every mbe_process* call"])
p("C13", "Error tracking and adaptive smoothing follow their rule and stay bounded",
  "After every frame decoded afresh the running error rate is the decayed previous rate plus the codec's weight times this frame's error count, a repeated frame keeps its predecessor's error tracking, and local energy, voicing promotion and amplitude limiting are exactly what the smoothing rule derives from it. Over a history of any length these quantities stay finite and within fixed bounds, smoothing never un-voices a band, and clean input keeps its voicing decisions.",
  ["histories", "inputs"], "all error-count histories of unbounded length, all amplitude vectors",
  "tests apply a few hand-made states; the recurrences run for hours of audio, so drift, saturation and wrong thresholds need long or specific histories",
  [ADA, I72, A50, A00], [("IIR error rate", I72 + ", " + A50 + ", " + A00 + ": process internals"), ("Algorithms 111-116", ADA + ": mbe_applyAdaptiveSmoothing, mbe_requiresAdaptiveSmoothing")],
  [("errorRate, localEnergy, amplitudeThreshold", "smoothing state", API + ": mbe_parms")], ["mbe_applyAdaptiveSmoothing, mbe_synthesizeSpeechf, mbe_process*"])
p("C14", "Spectral enhancement reshapes amplitudes within limits and keeps the energy",
  "Enhancing any model multiplies each band's amplitude by the weight the enhancement rule derives, limited to between one half and 1.2 and left at one for the lowest eighth of the bands, and then rescales all bands together so that the total energy is what it was. Nothing but the amplitudes of the current bands changes, and finite amplitudes give finite amplitudes.",
  ["inputs"], "all pitch values, band counts 0..56 and amplitude vectors, including silent and single-band ones",
  "tests check one vector; clamping, the low-band exemption and degenerate spectra need particular shapes",
  [CORE], [("enhancement", CORE + ": mbe_spectralAmpEnhance")], observe=["Ml of *cur_mp around mbe_spectralAmpEnhance"])
p("C15", "Voiced synthesis is phase-continuous and matches the model it is given",
  "For every pair of consecutive models, the audio of the voiced bands is the sum of harmonics whose amplitude and phase run from the previous model's to the current one's as the synthesis rule prescribes, including bands that appear, disappear or change voicing. Each band's phase advances by exactly the average pitch over the frame, so no frame boundary introduces a phase jump, and bands absent from both models contribute nothing.",
  ["inputs", "histories"], "all pairs of pitches, band counts, voicing patterns and amplitudes, over any number of frames",
  "golden PCM hashes cover a few transitions; interpolation versus windowed paths, growing/shrinking band counts and the eight-harmonic boundary need specific pairs",
  [CORE, "src/internal/mbelib_const.h"], [("phase update and oscillators", CORE + ": mbe_synthesizeSpeechf")],
  [("PSIl, PHIl", "phase state", API + ": mbe_parms")], ["PCM and *cur/*prev of mbe_synthesizeSpeechf"])
p("C16", "Unvoiced synthesis shapes the frame's noise by the unvoiced bands only",
  "For every model the unvoiced part of a frame is the stream's white noise, windowed, scaled in each unvoiced band to the amplitude the model asks for, removed everywhere else, and overlap-added with the previous frame. The noise of consecutively decoded frames is one continuous deterministic sequence carried in the stream's own state (a repeated frame repeats its predecessor's noise state), and a fully voiced model adds only the previous frame's fading tail.",
  ["inputs", "histories"], "all pitches, band counts, voicing patterns and amplitudes; all noise states; any number of frames",
  "golden hashes cover a few models; band edges depend on pitch and a wrong edge moves energy between neighbouring bins only",
  [UFF, CORE], [("noise buffer with overlap", UFF + ": mbe_generate_noise_with_overlap"), ("band scaling and WOLA", UFF + ": mbe_synthesizeUnvoicedFFTWithNoise")],
  [("noiseSeed, noiseOverlap, previousUw", "unvoiced state", API + ": mbe_parms")], ["PCM and *cur/*prev of mbe_synthesizeSpeechf"])
p("C17", "Noise generators are reproducible, per thread, and of the specified level",
  "After seeding, the comfort noise and the unvoiced noise of the calling thread are exactly the sequences the generators define for that seed, whatever else other threads do; a zero seed behaves as the documented non-zero default. Comfort noise always stays inside its specified low level and its 16-bit form is the converted float form.",
  ["inputs", "histories", "schedules"], "all 2^32 seeds, any number of draws, any interleaving of threads",
  "tests compare a seed with itself; an error common to both runs or a leak between threads or frames is invisible to them",
  [ADA, UFF, CORE], [("java.util.Random-compatible LCG", ADA + ": mbe_synthesizeComfortNoisef"), ("LCG 171x+11213 mod 53125", UFF), ("seeding", CORE + ": mbe_setThreadRngSeed")],
  observe=["mbe_synthesizeComfortNoise(f)", "noiseSeed/noiseOverlap after mbe_synthesizeSpeechf"])
p("C18", "Tone frames produce the specified tone, level and continuous phase",
  "For every tone index and level, a tone frame's samples are the sinusoid, or the sum of two, at that index's frequencies and at that level, and consecutive frames of a tone join without a phase jump. An index with no tone, or a build without tones, yields silence and leaves the tone phase alone.",
  ["inputs", "histories", "configurations"], "all 256 tone indices x 128 levels x any starting phase x any number of frames; both tone APIs; tone-less builds",
  "tests render a couple of tones; each dual tone has its own frequency pair, and phase wraps only after many frames",
  [CORE, A50, A00], [("tone table and phase accumulators", CORE + ": mbe_lookupToneFreqs, mbe_renderTonef, mbe_synthesizeTonef, mbe_synthesizeTonefdstar")],
  [("swn, un", "phase accumulators", API + ": mbe_parms")], ["PCM, swn, un"])
p("C19", "Every PCM sample is finite, within the soft-clip level and converted exactly",
  "Whatever frames are decoded, in whatever order, every float sample is finite and at most the soft-clip level in magnitude, and every 16-bit sample is at most 95% of full scale. Conversion to 16 bits multiplies by seven, limits to that level and drops the fraction, for every finite sample value.",
  ["inputs", "histories"], "all bit patterns on all entry points, all histories; all float sample values",
  "tests feed ordinary frames; extreme amplitudes need several cooperating frames to build up",
  [CORE, UFF], [("soft clip", CORE + ": mbe_clipFloatBuffer, mbe_floattoshort")], observe=["aout_buf of every synthesis and process call"])
p("C20", "The layered entry points are exactly compositions of one another",
  "Processing a frame gives the same parameter bits, error counts, status text, stream state and audio as running channel decoding, descrambling, packing and the parameter-level entry point one after another with the first-vector context, and each 16-bit entry point gives exactly the converted audio of its float twin. The legacy quality argument changes nothing.",
  ["inputs", "histories", "programs"], "all frames, all stream states, all ways to split a decode between the frame, step and parameter entry points",
  "tests compare one or two frames; equality must hold from every state of the stream",
  [I72, I71, A50, A00, CORE], [("wrappers", "mbe_process*Frame/Framef/Data/Dataf")], observe=["all outputs of both compositions on equal states"])
p("C21", "A stream's results depend only on its own inputs and state",
  "Interleaving any number of streams on one thread, or running them on different threads in any schedule, gives each stream the same decoded state, status and audio as running it alone, provided muted-frame noise is seeded alike. Saving a stream's records and restoring them later, or elsewhere in memory, continues it identically.",
  ["schedules", "histories", "programs"], "all interleavings of streams (same or different codecs) on one or more threads; all snapshot points",
  "tests run a single stream; hidden per-thread caches and hand-offs between calls are only exposed by specific interleavings",
  [CORE, ADA, UFF, I72, A50, A00], [("thread-local caches and hand-off", CORE + "; " + ADA + ": pre-enhancement energy hand-off; " + UFF + ": plan and seed override"), ("codec DCT caches", A50 + ", " + A00 + ", " + I72)],
  observe=["all outputs of a stream, alone versus interleaved"])
p("C22", "Initialisation and re-initialisation leave the documented fresh state",
  "Initialising leaves all three records equal and in the documented start state no matter what they held, and copying records copies everything. A stream initialised for IMBE and then fed an AMBE codec is normalised to that codec's defaults before its first frame, so its output equals that of a properly started stream.",
  ["histories", "inputs"], "all prior contents of the records; all histories before re-initialisation; all codec switches",
  "tests check a few fields of zeroed records; leftovers only matter after particular histories",
  [CORE, ACM, I72], [("initialisation", CORE + ": mbe_initMbeParms, mbe_moveMbeParms, mbe_useLastMbeParms; " + ACM + ": mbe_initAmbeParms_common, mbe_ensureAmbeDefaults_common")],
  observe=["all fields of the three records"])
p("C23", "All build configurations decode alike",
  "Builds with and without SIMD and with and without release optimisation produce the same parameter bits, counts, status text and decisions, and the same models and audio up to rounding, for every input. A build without tones differs only in rendering tone frames silently.",
  ["configurations", "inputs", "histories"], "all build options offered by the project x all inputs",
  "each configuration's tests run their own few vectors; nothing compares configurations over inputs whose lengths leave SIMD remainders",
  [CORE, UFF, I72, "CMakeLists.txt"], [("SIMD variants", CORE + ", " + UFF)], observe=["traces of the same script from every build"])
p("C24", "Calls touch only the memory they are given, whatever the input bits",
  "For every input bit pattern and history, a call writes only to its documented outputs within their documented sizes, never modifies its read-only inputs, and never reads memory it was not given. No bit pattern makes the library execute an undefined operation.",
  ["inputs", "histories"], "all frames, payloads and reachable states on all public entry points",
  "sanitised tests run a few vectors; the extreme band counts (56 bands twice in a row, 9 bands) and hour-long histories are not among them",
  [CORE, UFF, ADA, I72, I71, A50, A00, ACM, ECC], [("array bounds in decoders and synthesis", "log2Ml/Ml/Vl[57] indexing")], observe=["guard zones, const inputs, sanitizer reports"])
p("C25", "Version and silence helpers and null arguments behave as documented",
  "The silence helpers write exactly 160 zero samples, the version helpers agree with each other and never write more than 32 bytes, and the predicates and helpers documented to accept null do nothing or return zero for it. The muting and repeat predicates report exactly the documented thresholds for every state.",
  ["inputs"], "all buffer contents, all float values of rate and threshold, all repeat counts",
  "tests try one value on each side of a threshold at most",
  [CORE, ADA], [("helpers", CORE + ": mbe_printVersion, mbe_versionString, mbe_synthesizeSilence(f); " + ADA + ": mbe_requiresMuting, mbe_isMaxFrameRepeat, mbe_requiresAdaptiveSmoothing")],
  observe=["return values and buffers"])

p("C26", "Dumps print exactly the bits they are given; nothing else prints",
  "Each dump helper writes to the error stream exactly the bits it is given, one digit per bit, parameter bits in order and frame vectors from their highest cell to their lowest, grouped as the format groups them, and changes nothing. No other call of the library writes anything to the application's output or error stream, whatever it is given.",
  ["inputs", "histories"], "all bit patterns for the dumps; all frames, states and histories for everything else",
  "tests never look at the streams; a dump that swaps two cells or a diagnostic left in a rare path is invisible to them",
  [I72, I71], [("dump helpers", I72 + ": mbe_dumpImbe4400Data, mbe_dumpImbe7200x4400Data, mbe_dumpImbe7200x4400Frame; " + I71 + ": mbe_dumpImbe7100x4400Data, mbe_dumpImbe7100x4400Frame")],
  observe=["descriptors 1 and 2 around every call"])

p("C27", "Refused memory costs a call its unvoiced sound and nothing else",
  "When the memory a thread's synthesis needs cannot be obtained, whichever of the requests fails, the call still completes with the same bits, counts, status text and models as otherwise, only the unvoiced part of the sound missing. Nothing of the attempt is kept, however often it repeats, other threads are not affected, and the thread sounds in full again from the first call whose requests are granted.",
  ["faults", "histories", "schedules"], "all subsets of requests refused, at every call of every thread's history",
  "tests never refuse an allocation; half-built plans and leaks per attempt show only at a particular failing request followed by further calls",
  [CORE, UFF, "src/external/pffft/pffft.c"], [("plan life cycle", CORE + ": mbe_get_fft_plan, mbe_synthesizeSpeechf; " + UFF + ": mbe_fft_plan_alloc, mbe_fft_plan_free; pffft.c: pffft_new_setup")],
  observe=["requests made and refused, blocks held, sound, results and records"])

p("C28", "A stream forgets: after undamaged frames nothing of its past is left",
  "When two receivers with different pasts - a late start, damage, mutes, repeats, tones, extreme payloads - hear the same undamaged voice frames, they decode each of them to the same pitch, bands, voicing and bits from the first on. The difference between their log amplitudes, gains, error rates and local energies shrinks with every frame at least as fast as the codec's prediction and smoothing factors say. Once it is gone, their status texts, amplitude limits and models agree and, from equal oscillator phases and noise state, so does their sound.",
  ["inputs", "histories"], "all pairs of pasts, all common continuations of voice frames",
  "tests start every stream afresh and follow it for a few frames; something that stays behind after a mute or a burst of errors, or a factor that does not shrink, needs two histories and a long continuation to show",
  [CORE, ADA, I72, I71, A50, A00, ACM], [("prediction, gain, error rate, local energy and threshold recurrences", I72 + ": mbe_decodeImbe4400Parms; " + A50 + "/" + A00 + ": mbe_decodeAmbe2450Parms, mbe_decodeAmbe2400Parms; " + ADA + ": mbe_applyAdaptiveSmoothing")],
  observe=["records of both streams after every common frame, status texts, sound"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
