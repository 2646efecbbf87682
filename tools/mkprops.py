#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

ALLPROC = ["src/traits.rs", "src/analysis/leaky_integrator.rs", "src/analysis/peak_detector.rs",
           "src/analysis/rms_detector.rs", "src/delay/mod.rs", "src/delay/linear_delay.rs",
           "src/filter/one_pole.rs", "src/filter/one_zero.rs", "src/filter/two_pole.rs",
           "src/filter/two_zero.rs", "src/filter/biquad.rs", "src/filter/rbj/"]
DEL = ["src/delay/mod.rs", "src/delay/linear_delay.rs"]

prop("C01", "Output does not depend on how the stream is cut into buffers",
  "For every processor, feeding a stream through block processing in buffers of any lengths (including one-sample and empty buffers), with parameter changes and resets between buffers, produces exactly the same output samples and the same final state as feeding it one sample at a time. Block processing overwrites each buffer in place and returns the last output computed so far, which for an empty buffer is the last output of the processor. An empty buffer changes nothing.",
  ["schedules", "histories", "inputs"], "every partition of every stream into host buffers, with control events at every buffer boundary, for all 20 processors in f32 and f64",
  "Tests process one 4- or 5-sample block per filter after a clear; no empty or one-sample buffers, no partitions, no control changes between buffers, no delays, detectors or RBJ filters.",
  ALLPROC, [("default block method calling the per-sample method", "src/traits.rs Processor::process_block")],
  ["buffer contents after process_block", "return value of process_block", "last_out"])

prop("C02", "A panic in the middle of a buffer leaves a clean prefix",
  "If processing one sample of a buffer panics, every earlier sample of that buffer has been replaced by its output, and that sample and every later one still hold their input. Up to that point each sample was handed to the processor exactly once, in order, and none after it was. This holds for the library's processors and for processors written by callers.",
  ["crash_points", "histories", "inputs"], "every sample (and every arithmetic step within it) at which processing can panic, for every buffer length and processor",
  "No test panics inside a block; the quantifier is over crash points inside a buffer, of which the tests reach none.",
  ALLPROC, [("in-place, in-order loop of the default block method", "src/traits.rs Processor::process_block")],
  ["buffer contents after an unwound process_block", "calls seen by a caller-supplied processor"])

prop("C03", "Last output is always the latest sample, and looking never changes anything",
  "At every moment the last output a processor reports is the value its most recent processing call returned, or zero if it has processed nothing since it was built or cleared (re-tuning a cookbook filter clears it). The next output predicted by a delay line whose delay is at least one sample is the value the next processing call returns. Reading last output, next output, taps or parameters, any number of times at any moment, never changes any later output.",
  ["histories", "schedules"], "every interleaving of observers with processing, parameter changes, tap writes, growth and resets",
  "Tests read the last output once after one sample for three detectors, and never for filters after a clear; the next output is read only on a fresh line.",
  ALLPROC, [("stored last output", "each processor's last_out"), ("predicted next output", "src/delay next_out")],
  ["last_out", "next_out", "tap_out", "getters", "outputs of a twin that is never observed"])

prop("C04", "Clearing returns a processor to its freshly built behaviour",
  "After any history of samples (including NaN, infinities and overflowing values), parameter changes (including rejected or garbage ones), tap writes and growth, clearing a processor makes every later output, last output, predicted output and tap value identical to those of a newly built processor that was only given the same parameter changes. Clearing never changes parameters.",
  ["histories", "fault_sequences", "inputs"], "every instant of every fault-laden history at which clear can be called",
  "Tests clear only healthy processors at one point after a handful of unit-range samples and then set new coefficients; no poisoned state, no delay line with interpolation, no tap or growth before the clear.",
  ALLPROC, [("reset of the sample memory", "each processor's clear")], ["outputs after clear against a fresh twin"])

prop("C05", "Clear plus re-applied parameters recovers from a panic at any step",
  "If the sample type's arithmetic panics at any step inside any operation of a processor (processing, block processing, setting parameters, tapping, clearing), the processor can still be used: after clearing it and setting all its parameters again to the same values, it behaves identically to a newly built processor given the same parameters.",
  ["crash_points", "histories"], "every arithmetic step inside every operation at which the operation can be cut short, in every state",
  "No test interrupts an operation; half-updated pointers, coefficients and memories are unreachable for them.",
  ALLPROC, [("clear resets all signal memory", "each processor's clear"), ("setters recompute everything derived", "set_coefficients, set_delay, set_attack, set_release, set_alpha")],
  ["outputs after recovery against a fresh twin"])

prop("C06", "Delay lines output exactly the sample the current delay asks for",
  "At every processing call a delay line returns the input of d samples ago (zero before the stream began or was cleared), where d is the current delay; a fractional delay returns the linear interpolation of the two neighbouring inputs with weights given by the fraction. A newly set delay takes effect on the next call whatever the position in the line, is limited to the range from zero to the maximum delay, and is what the line reports as its delay. After a garbage (NaN) setting, the next valid setting restores correct timing.",
  ["histories", "schedules", "fault_sequences"], "every interleaving of samples, delay changes (in range, out of range, garbage), observers, taps and resets at every wrap position and line size",
  "Tests read 5 samples at one delay on a 4096-sample line from position 0: no wrap-around, no delay change mid-stream, no maximum delay, one fraction (0.5).",
  DEL, [("circular buffer with read and write positions", "src/delay/mod.rs Delay::process, set_delay"), ("read position and interpolation weights", "src/delay/linear_delay.rs set_delay, next_out")],
  ["process output", "get_delay", "get_max_delay", "next_out"],
  state=[dict(name="memory/read_ptr/write_ptr", meaning="circular buffer", where="src/delay")])

prop("C07", "Taps read and write exactly the addressed past input",
  "For every tap position from zero to the maximum delay, reading a tap returns the input that many samples before the most recent one as it stands in the line, writing a tap replaces exactly that sample, and adding to a tap adds to exactly that sample and returns the sum. The change is heard when that sample reaches the delay's output and is visible to later taps, and no other sample in the line changes.",
  ["histories", "schedules"], "every interleaving of tap reads, writes and additions with samples, delay changes, growth and resets, at every wrap position",
  "Tests tap the first four positions of a line of 4096 that never wrapped; tapping at or near the maximum, after wrap, after growth or across a delay change is never reached.",
  DEL, [("tap index relative to the write position", "tap_out, tap_in, add_to in both delay lines")], ["tap_out", "add_to result", "process output"])

prop("C08", "Growing a running delay line loses, repeats and moves no sample",
  "Raising the maximum delay at any moment leaves the current delay, the last output and every sample in the line unchanged in value and in distance from the newest one, so the output continues as if the line had not been touched, and tap positions that did not exist before read zero until samples reach them. Asking for a maximum at or below the current one changes nothing.",
  ["histories", "schedules"], "every moment and wrap position at which the maximum can be raised, repeatedly, in every history",
  "No test calls the operation at all.",
  DEL, [("resizing of the circular buffer", "set_max_delay in both delay lines")], ["process output", "tap_out", "get_delay", "get_max_delay"])

prop("C09", "A refused growth leaves the delay line as it was",
  "If raising the maximum delay fails because the allocator refuses the memory or the size cannot be represented, and the resulting panic is caught, then the delay line is untouched: its maximum, its delay, its taps and all later outputs are those of a line on which the growth was never attempted, and a later growth that fits succeeds. Building a line whose memory is refused or whose size cannot be represented panics likewise; no line with another maximum or without its memory comes out.",
  ["fault_sequences", "histories"], "every moment of every history at which growth or building fails, repeatedly, with any refused size up to the largest integer",
  "No test calls the operation or makes an allocation fail.",
  DEL, [("memory is obtained before any position is changed", "new and set_max_delay in both delay lines")], ["process output", "tap_out", "get_delay", "get_max_delay of a twin"])

prop("C10", "Processing carries on unchanged while memory is exhausted",
  "Once built, every processor, delay line and window iterator works with every allocation request being refused: processing samples and buffers, clearing, setting parameters, tapping, observing and windowing buffers all succeed and produce the same values as with memory available. Only building an object or raising a delay line's maximum may need memory.",
  ["fault_sequences", "histories"], "every interval of every history during which the allocator refuses all requests",
  "Tests never make allocation fail, so an allocation on the audio path is invisible to them.",
  ALLPROC + ["src/window/"], [("fixed-size state, no allocation outside construction and growth", "all processors, window iterators, apply_window")],
  ["outputs against a twin with memory", "allocation requests seen by the simulated allocator"])

prop("C11", "Basic filters follow their difference equation under live coefficient changes",
  "Every output of the one-pole, one-zero, two-pole, two-zero and both biquad filters equals, up to rounding, its documented difference equation evaluated on the inputs and outputs since the last clear and the coefficients in force, however and whenever coefficients are changed (all at once or one by one) between samples. Changing coefficients never disturbs the stored samples, and a filter whose coefficients were never set passes its input through.",
  ["histories", "schedules", "inputs"], "every interleaving of coefficient changes, resets and samples of any finite magnitude",
  "Tests use one coefficient set per filter, set once after a clear, on five samples around 0.5.",
  ["src/filter/one_pole.rs", "src/filter/one_zero.rs", "src/filter/two_pole.rs", "src/filter/two_zero.rs", "src/filter/biquad.rs"],
  [("per-sample recurrences", "process of each filter"), ("public coefficients and set_coefficients", "each filter")], ["process output"])

prop("C12", "Cookbook filters restart cleanly on every re-tune and follow the cookbook",
  "Whenever a cookbook filter (low-pass, high-pass, both band-passes, band-stop, all-pass, peak, both shelves) is tuned with a valid sample rate, frequency, gain and Q or slope, at any moment of a stream, it forgets all earlier signal and from the next sample on its output equals, up to rounding, the Audio EQ Cookbook filter of that type for those parameters, until the next re-tune or clear. A filter that was never tuned passes its input through.",
  ["histories", "schedules", "inputs"], "every interleaving of re-tunes over the whole valid parameter range with samples and resets",
  "Tests check coefficients of two of the nine filters at one tuning; the other seven are only tested to change their input.",
  ["src/filter/rbj/", "src/filter/biquad.rs"], [("cookbook coefficient formulas followed by a clear", "set_coefficients of each rbj filter"), ("transposed direct form II", "src/filter/biquad.rs Biquad2::process")], ["process output"])

prop("C13", "Envelope followers obey the settings in force and ignore invalid ones",
  "The leaky integrator and the peak and RMS detectors move, at each sample, from their previous value toward the input level (the sample, its magnitude, or its square with the root taken at the output) by the gain in force, the detectors using the attack gain when the level is above the envelope and the release gain otherwise. A setting takes effect from the next sample and never disturbs the stored value; attack and release lengths that are not finite and positive, and integrator gains outside zero (included) to one (excluded), are ignored, in any order of valid and invalid settings. The reported gains are those of the latest valid settings.",
  ["histories", "schedules", "fault_sequences"], "every interleaving of valid and invalid settings, resets and samples",
  "Tests process a constant input for one integrator gain, never process a detector with both gains set beyond one sample, and never try a negative length.",
  ["src/analysis/leaky_integrator.rs", "src/analysis/peak_detector.rs", "src/analysis/rms_detector.rs"],
  [("one-pole integration with switched gain", "process of each detector"), ("validation of settings", "set_alpha, set_attack, set_release")], ["process output", "get_alpha", "get_attack_gain", "get_release_gain"])

prop("C14", "Envelopes stay within bounds and settle in bounded time",
  "Under any sequence of settings and finite samples an envelope detector's output is never negative and always lies between its previous output and the current input level, so it never overshoots the largest level seen. Once the level is held constant, the remaining distance to it (for the RMS detector, of the squares) shrinks by at least a factor e for every attack length (rising) or release length (falling) of samples, whatever happened before.",
  ["histories", "schedules", "fault_sequences"], "every history of settings and finite samples followed by a constant level, for every attack and release length",
  "Tests process one sample with both gains set; no test lets a detector rise or fall.",
  ["src/analysis/peak_detector.rs", "src/analysis/rms_detector.rs"], [("gain strictly below one derived from the length", "set_attack, set_release"), ("convex combination of envelope and level", "process")], ["process output over simulated time"])

prop("C15", "A corrupt sample leaves delays and zero-only filters in bounded time",
  "If samples of the input stream, or values written to taps, are corrupt (NaN, infinite, huge or flipped bits), then once the input is clean again every output of a one-zero filter after one further sample, of a two-zero filter after two, and of a delay line after one more sample than its maximum delay, equals the output it would have had if the corrupt samples had never occurred, without any clear. This holds whatever parameter changes and growth happen meanwhile.",
  ["fault_sequences", "histories"], "every placement of every corrupt burst in every history",
  "No test feeds a non-finite or huge value to any processor.",
  DEL + ["src/filter/one_zero.rs", "src/filter/two_zero.rs"], [("finite memory overwritten by new input", "process of delays, one-zero and two-zero filters")], ["outputs against an uncorrupted twin"])

prop("C16", "Stable filters forget bursts and fall silent in bounded time",
  "A recursive filter with a stable tuning (any valid cookbook tuning, and one-pole, two-pole and biquad filters and integrators with poles inside the unit circle) stays bounded for bounded input, and after the input falls silent, or after a finite burst of corrupt but finite samples ends, its output comes within rounding of zero, or of the uncorrupted output, within the number of samples given by its pole radius.",
  ["fault_sequences", "histories", "inputs"], "every stable tuning, every finite burst, every following stretch of silence or clean signal",
  "Tests run five samples; no decay, boundedness or recovery can be seen.",
  ["src/filter/", "src/analysis/leaky_integrator.rs"], [("fading memory of the recurrences", "process of recursive filters"), ("valid tunings give poles inside the unit circle", "set_coefficients of rbj filters")], ["outputs over simulated time", "uncorrupted twin"])

prop("C17", "Each instance depends only on its own history, under any interleaving",
  "The outputs of every processor, delay line and window iterator are a function only of the calls made on that instance: they do not change with how many other instances exist or what parameters they have, with how the threads that own them are interleaved (even in the middle of an operation), with the instance being moved to another thread between operations, or from one execution of the program to the next.",
  ["schedules", "histories", "programs"], "every interleaving, at the granularity of single arithmetic operations, of several caller threads each driving its own instances",
  "Each test drives one instance on one thread from beginning to end; shared, cached or thread-local state would never show.",
  ALLPROC + ["src/window/", "src/util/mod.rs"], [("all state lives in the instance", "every public type; no statics")], ["per-instance output logs alone and interleaved"])

prop("C18", "Window iterators deliver every point once, in order, and count what remains",
  "However a window iterator's consumption is cut up, interleaved with other iterators, skipped over, abandoned or resumed, it yields each point of its window exactly once in order and then reports the end for ever, and at every moment the remaining length and size bounds it reports equal the number of points still to come. Applying a window to a buffer multiplies each sample by the point of that window at that position for the buffer's length and leaves a rectangular-windowed buffer unchanged; points of a window of at least one sample are finite numbers.",
  ["histories", "schedules", "inputs"], "every interleaved, partial, skipping or resumed consumption of every window type and size, and every frame cut from a stream, including final partial frames",
  "Tests consume whole windows of sizes 3, 5, 6 and 7 once from the start and read the length only before the first point.",
  ["src/window/"], [("index and size of each iterator", "next, len of each window iterator"), ("zip of samples and window", "src/window/mod.rs apply_window")], ["next", "nth", "len", "size_hint", "apply_window"])

prop("C19", "No sample, setting or size makes a built object panic, hang or run away",
  "Whatever sample values (any bit pattern: NaN, infinities, subnormals, the largest numbers), settings (in or out of range, not finite), tap positions within the line, skip distances and window sizes up to the largest integer an object meets, in any order, every call on a processor, delay line or window iterator that was built returns, and does work bounded by the number of samples or points it was asked for and the size of its memory. The only exceptions are raising a delay line's maximum when the memory cannot be had, and tap positions beyond the line's maximum.",
  ["inputs", "histories", "fault_sequences"], "every sequence of calls with arbitrary sample bit patterns, arbitrary settings, tap positions within the line, any window size and any skip distance",
  "Tests use ordinary samples and settings; a value that leads to an overflow, a failed conversion or an endless loop has to be met first, often only in a particular state.",
  ALLPROC + ["src/window/"], [("branches, conversions and index arithmetic on samples and settings", "process, set_* of every type; set_delay of LinearDelay; next, len of the windows")], ["return, panic, arithmetic steps taken by each call"])

prop("C20", "Objects hold memory in proportion to their size and give all of it back",
  "The heap memory an object holds is bounded by a fixed amount plus, for a delay line, a fixed multiple of the memory for the samples its maximum delay calls for, throughout its life: repeating the same calls, however often and whether or not some of them panicked and were caught or were refused memory, never makes it hold more, and dropping it gives back everything it held.",
  ["histories", "fault_sequences"], "every history of samples, settings, resets, growth, refused growth and crashes inside operations, repeated any number of times, then dropped at any point",
  "Tests never measure memory, repeat or fail anything.",
  ALLPROC + ["src/window/"], [("one vector for a line, plain fields otherwise", "memory in both delay lines; set_max_delay")], ["bytes held from the global allocator before, between and after calls"])

prop("C21", "Objects do not age",
  "How long an object has been in service does not matter. However many samples, buffers, empty buffers, settings, resets, tap accesses, looks or attempts to grow it has been through (far beyond 2^16, 2^24 and 2^32), once nothing but silence is left in it, it shows and does exactly what an instance with the same settings does that was spared all that, at once and for any signal afterwards.",
  ["histories", "schedules"], "every length of service, counted in samples, calls or simulated days, at any point of any history, and everything that follows",
  "Tests run a few dozen samples from a new object; an audio process runs for days.",
  ALLPROC, [("positions are kept modulo the line, nothing else counts calls", "read and write positions of both delay lines; state fields of every filter and detector")], ["process output", "last_out", "next_out", "tap_out", "getters"])

prop("C22", "No processor has a level or polarity of its own",
  "Filters, delay lines, the leaky integrator and windowing are linear in level: multiplying everything fed to an object (samples and tap writes) by plus or minus a power of two, with the same settings, resets and growth at the same moments, multiplies everything it puts out by exactly the same, unless numbers overflow or underflow. Envelope detectors scale alike and do not tell the polarity of the input.",
  ["inputs", "histories"], "every history and every scale factor from 2^-20 to 2^20, either polarity",
  "Tests use one level, near full scale; thresholds, offsets, clipping and gates show elsewhere.",
  ALLPROC + ["src/window/mod.rs"], [("sums of products only; abs and square in the detectors", "process of every type; apply_window")], ["process output", "last_out", "next_out", "tap_out", "apply_window"])

prop("N01", "Decibel and sample conversions are inverse and clipped as documented",
  "Converting a finite positive sample value to decibels and back returns the value up to rounding, values at or below -120 dB map to the documented floor in both directions, non-finite decibel values map to zero, and applying a gain multiplies.",
  ["inputs"], "every finite value of f32 and f64",
  "Tests sample a few decades.", ["src/util/mod.rs"], [("log10/powf with floor", "to_db, to_sample, apply_gain")], ["return values"])
prop("N02", "Window shapes match their closed formulas for every size",
  "For every size of at least two, each window type's points equal its textbook formula up to rounding, are symmetric, and lie between zero (up to rounding) and one.",
  ["inputs"], "every window size and type in f32 and f64",
  "Tests check sizes 3, 5, 6 and 7.", ["src/window/"], [("closed formulas", "generate_window of each iterator")], ["iterator values"])
prop("N03", "Cookbook filters have the magnitude response their names promise",
  "For every valid tuning the steady-state gain of each cookbook filter at zero frequency, at the tuned frequency and at half the sample rate is the one the Audio EQ Cookbook specifies for that type.",
  ["inputs"], "every valid tuning",
  "Tests check coefficients at one tuning of two filters.", ["src/filter/rbj/"], [("coefficient formulas", "set_coefficients of each rbj filter")], ["coefficients, via output"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
