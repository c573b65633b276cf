#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection: "
C = [
 ("C01", T+"seeded schedules of draw/iterate/clone/reseed over many live generators, refinement against executable recurrences"),
 ("C02", T+"reseeds and scripted seed-source failures placed in seeded generator histories, checked against a twin that never saw the failure"),
 ("C03", T+"seeded source-failure sequences interleaved with next/clear/drop, checked against a one-cursor reference iterator"),
 ("C04", T+"scripted word streams and failure bursts under the draw, compared with the fault-free draw on the same words and a reference sampler interval"),
 ("C05", T+"source failures at every word of prime generation, compared with fault-free generation and an independent primality test"),
 ("C06", T+"adversarial words and failures under the primality test, compared with an independent primality test"),
 ("C07", T+"seeded interleavings of several owners over sharing graphs, refinement against a reference store of exact integers"),
 ("C08", T+"seeded interleavings of in-place operations over sharing graphs incl. self-aliasing, refinement against a reference store"),
 ("C09", T+"crash (unwind) injection at every point where caller code or a documented panic can interrupt a call, state compared before and after"),
 ("C10", T+"sink failures, short writes and interruptions at every byte, prefix and retry checks"),
 ("C11", T+"simulated kernel (short reads, EINTR, ENOSYS, EAGAIN) under the portable entropy source, byte-exact conservation over the history"),
 ("C12", T+"simulated processor whose rdrand/rdseed steps fail on a seeded schedule, exactly-once check over the delivered values"),
 ("C13", T+"simulated clocks with skew, jumps, stalls and pre-epoch times, functional-dependence checks over the readings"),
 ("C14", T+"simulated heap (garbage fills, moves, guard zones, quarantine), differential runs of one history over heap configurations"),
 ("C15", T+"histories with injected source, seed and sink failures and panics repeated under a counting heap, growth in every repetition is a violation"),
 ("C16", T+"one seeded history with its faults executed in the x86 and in the portable build, every observation after every step compared"),
 ("C17", T+"seeded scheduler that decides every thread switch at allocations, releases and callbacks and nests calls in callbacks, each owner compared with its history alone"),
]
N = {
 "C07": "; the exact values are judged for naturals, integers and rationals, floats against the same call on deep copies",
 "C08": "; one recorded finding (bigint-stale-sign) is matched by its history shape",
 "C15": "; a cache that stops growing within three repetitions is not reported",
 "C16": "; 32-bit, big-endian and non-Linux targets cannot be run here",
 "C17": "; a call is interrupted only where it allocates, releases or calls back",
 "C14": "; a stray access is seen only if it hits a guard zone, a quarantined block or changes a result",
}
def note(i): return "Seeded sampling of schedules and faults against the real library code: a clean batch is evidence, not proof. Trusts the simulator, its reference models (self-tested) and the rustc build with overflow checks" + N.get(i, "") + "."
na = [
 ("C20", "pure function of its arguments: no schedule, clock, I/O, fault or history enters; input generation is not simulation (the surrounding sharing, panic and heap behaviour of these calls is covered by C07, C09 and C14)"),
 ("C21", "pure function of the text, bytes and base; the fault-bearing half (failing sinks) is C10"),
 ("C22", "pure algebra on two operands; the exact values of rationals in histories, their sharing and aliasing are covered by C07 and C08; lowest terms and conversion to machine floats remain"),
 ("C23", "pure function of operands, precision and mode; no nondeterminism to control"),
 ("C24", "pure function of two operands; no nondeterminism to control"),
 ("C25", "a statistical claim about a deterministic sequence: no schedule or fault enters, and exactness of the sequence is C01"),
]
m = dict(version=1, setup_cmd="bash setup.sh",
 hooks=dict(guard="--cfg rmath_sim (simulated rdrand/rdseed) and --cfg rmath_portable (selects the non-x86 modules on x86); both off by default",
   enable="RUSTFLAGS=\"--cfg rmath_sim\" or RUSTFLAGS=\"--cfg rmath_portable\", set by /verif/build.sh for the simulator crate in /verif/sim",
   source_commits=["1a369cc", "74a4c75"]),
 checks=[dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough", evidence_file=f"evidence/{i}.json", technique=t, level="exploration", level_note=note(i)) for i, t in C],
 not_applicable=[dict(property=i, reason=r) for i, r in na],
 notes="replay.sh FILE re-runs one replay file with a log of every step; known findings in known_findings.txt; design in DESIGN.md")
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
