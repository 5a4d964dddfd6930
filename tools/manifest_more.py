SAMP = "seeded sampling of inputs; every recorded call is decided by the specification; numeric rules hold to stated tolerances"
TOUR = "the machine is model-checked exhaustively over repeat counts, error counts and scaled error rates; the replayed histories tour all its transitions; payload bits are sampled"
C = [
 ("C06", "params.py C06", TV, SAMP),
 ("C07", "params.py C07", TV, SAMP),
 ("C08", "params.py C08", TV, SAMP),
 ("C09", "conceal.py C09", GEN, TOUR),
 ("C10", "conceal.py C10", GEN, TOUR),
 ("C11", "conceal.py C11", GEN, TOUR),
 ("C12", "conceal.py C12", GEN, TOUR),
 ("C13", "smooth.py", GEN, TOUR + "; smoothing is decided on recorded direct calls, processed frames and 400000-frame runs"),
 ("C14", "enhance.py", TV, SAMP),
 ("C15", "synth.py C15", TV, SAMP + "; a pair whose rule hinges on rounding (pitch ratio, phase wrap) is not compared sample by sample"),
 ("C16", "synth.py C16", TV, SAMP + "; spectra whose band edges fall on a bin boundary within rounding are not compared"),
 ("C17", "noise.py", GEN, "all two-thread histories of bounded length from the specification, seeds sampled with every boundary value; schedules: driver-picked and free-running threads"),
 ("C18", "tone.py", TV, "every index and both entry points, levels and phases sampled; builds with and without tones"),
 ("C19", "pcm.py C19", TV + "; the specification's conversion breakpoints replayed over every float", "conversion: every float between 1/8 and 8192 in magnitude in quick, every finite float in thorough; frames are seeded samples plus the loudest payloads found"),
 ("C20", "layers.py C20", GEN, "histories of splits generated from the layer machine; payloads sampled; equality of all bits, counts, texts, states and audio is exact"),
 ("C21", "streams.py C21", GEN, "all interleavings of the bounded stream machine with saves, restores and thread hand-overs; payloads sampled"),
 ("C22", "records.py", GEN, "all prior contents sampled, histories of initialise/copy/codec switch generated from the record machine; equality of every field of every record is exact"),
 ("C24", "memory.py", TV, "sampled frames, payloads, states and buffer contents on builds with address, undefined-behaviour and memory sanitizers and guard zones; the specification states the footprint of every call and accepts only clean runs"),
 ("C25", "helpers.py", TR, "predicates: every rate and threshold float in a dense set around each threshold (quick), much wider in thorough; buffers and sizes exhaustive to 40 bytes"),
 ("C26", "dumps.py", TV, "bit patterns sampled; the printed text is compared exactly; streams of every codec and every other entry point are watched for any output"),
 ("C27", "alloc.py", GEN, "all histories of two threads up to the stated depth with every single request or all of them refused, and random longer ones with ranges of refusals; payloads sampled; the sound without its unvoiced part comes from rendering the same model with those bands silenced"),
 ("C28", "resync.py", TV, "pasts and common frames are seeded samples; that the rules imply the stated contraction is model-checked on the reconstruction operators for pulses in any part of the spectrum and the listed (thorough: all) band counts, and on the concealment machine for every pair of states"),
 ("C23", "configs.py", GEN, "eight builds (gcc, x86-64 SSE2; Debug/Release/RelWithDebInfo/MinSizeRel, SIMD, fast-math, LTO, debug logs, no tones) over tours of the concealment machine; payloads sampled; exact parts compared exactly, numbers to stated tolerances"),
]
