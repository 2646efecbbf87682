#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "deterministic simulation with fault injection: "
C = {
 "C01": ("seeded host schedules (buffer cuts, empty and dropped buffers, control events); block run vs. sample-by-sample twin vs. re-cut twin",
         "outputs, return values and final state compared bit for bit"),
 "C02": ("seeded crashes at every arithmetic step inside a buffer (crash-injecting sample type) and in caller-supplied processors; prefix oracle on the buffer and call log",
         "which sample was interrupted is inferred from data flow tags; for delay lines only the clean-prefix shape is checked"),
 "C03": ("seeded interleavings of observers with everything else; watched instance vs. unwatched twin, latest-output model", "bit for bit"),
 "C04": ("seeded fault-laden histories, clear at arbitrary instants; cleared instance vs. freshly built twin", "bit for bit, linear delay up to 1e-6 of the amplitude"),
 "C05": ("seeded crash at any arithmetic step of any operation, then clear and re-set; recovered instance vs. freshly built twin", "bit for bit, linear delay up to 1e-6 of the amplitude"),
 "C06": ("seeded schedules of samples, delay changes, garbage settings, taps, growth; refinement against an input log", "exact for whole delays, rounding allowed for interpolation"),
 "C07": ("seeded schedules of tap reads, writes, additions, samples, delay changes, growth; refinement against an input log", "tap values exact"),
 "C08": ("seeded growth at arbitrary instants and wrap positions; refinement against an input log", "tap values exact"),
 "C09": ("seeded allocation refusal and unrepresentable sizes at growth and building; refused line vs. twin never asked", "bit for bit; the allocation-error hook turns refusal into unwinding"),
 "C10": ("seeded intervals in which the allocator refuses everything; starved instance vs. twin with memory", "bit for bit"),
 "C11": ("seeded coefficient changes, resets and corrupt samples; every output against the difference equation in f64", "up to 16 units of rounding of the terms added"),
 "C12": ("seeded re-tunes mid-stream over the valid range; every output against the Audio EQ Cookbook recurrence in f64", "up to rounding of the coefficients; tunings outside stated margins are not judged"),
 "C13": ("seeded valid and invalid settings, resets and samples; every output and reported gain against the stated law", "up to rounding"),
 "C14": ("seeded settings and samples, then the level held: bound and settling time as bounded liveness after faults stop", "up to rounding"),
 "C15": ("seeded corrupt samples and tap writes; corrupted instance vs. uncorrupted twin once clean input has passed", "bit for bit"),
 "C16": ("seeded stable tunings, finite bursts, silence; running bound from pole radii, uncorrupted twin", "bounds are worst case over the pole radius, so they are loose for well-damped tunings"),
 "C17": ("seeded preemptive scheduling at arithmetic-step granularity over real threads with one baton; interleaved log vs. each instance alone vs. second execution", "preemption points exist only where the sample type is the simulator's; f32 and f64 instances switch between operations"),
 "C18": ("seeded interleaved consumption (next, skip, take, step, collect, abandon), frames cut from a stream; point and length model", "points up to rounding"),
 "C19": ("seeded histories of arbitrary bit patterns, settings, tap positions, skips and sizes; no call may panic or use up its allowance of arithmetic steps (counted by the sample type; a wall-clock limit catches loops it cannot see)", "the allowance is 2000 steps a sample and more, so only runaway work is reported"),
 "C20": ("seeded histories with crashes and refused memory, repeated six times, then dropped; bytes held from the simulated allocator", "the bound is four times the samples of the maximum delay plus 16 KiB"),
 "C21": ("seeded histories with long service (up to 2^24 samples, 2^17 calls, and one stretch of 2^32 samples for every processor type) at arbitrary instants; aged instance vs. spared twin", "bit for bit, linear delay up to 1e-6 of the amplitude; counts beyond 2^32 + 600 are not reached"),
 "C22": ("seeded histories given twice, once scaled by a signed power of two; scaled run vs. unscaled run", "exact except at the edge of underflow, where the comparison of a run ends"),
}
NA = {
 "N01": "pure functions of one number: no schedule, fault, time or history for a simulator to vary; needs an input-space technique",
 "N02": "values of a closed formula at (index, size): no schedule or fault is involved (C18 decides delivery, and compares the points it happens to see)",
 "N03": "a static property of coefficient formulas over the parameter space: no schedule or fault is involved (C12 compares outputs to the cookbook recurrence at sampled tunings)",
}
m = dict(version=1, setup_cmd="bash setup.sh",
  checks=[dict(property=k, quick_cmd=f"bash check.sh {k} quick", thorough_cmd=f"bash check.sh {k} thorough", evidence_file=f"evidence/{k}.json",
               technique=T + a, level="exploration",
               level_note="Seeded search, not exhaustive: the property held on every simulated run. " + b[0].upper() + b[1:] + ". Trusts the oracle, the discrete-event host model and the seams (sample type, global allocator, thread baton); all rasp code is real, built from /repo in a checked and a release profile.")
          for k, (a, b) in C.items()],
  not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
  notes="No hooks in /repo: the seams used (generic sample type, global allocator, caller-owned threads) exist already. Defects found were repaired in fix: commits, see known-findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
