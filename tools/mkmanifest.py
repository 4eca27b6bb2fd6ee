#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
CLAIMED = sys.argv[1:] or "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C21".split()
TECH = {
 "C01": "deterministic simulation with fault injection: seeded failing, short and interrupted writers, every prefix checked",
 "C02": "deterministic simulation with fault injection: seeded stream splits, interruptions, errors and full disks; restart in another simulated process",
 "C03": "deterministic simulation with fault injection: seeded cuts, bit flips and range damage on simulated storage; crash-recover-append histories of a log",
 "C04": "deterministic simulation with fault injection: seeded allocation failures and callback panics at numbered steps, compared with an undisturbed simulated process",
 "C05": "deterministic simulation with fault injection: byte-exact simulated allocator over repeated interrupted rounds, names and threads",
 "C06": "deterministic simulation: seeded schedules of holders acting and re-entering, refinement against private deep copies",
 "C07": "deterministic simulation with fault injection: seeded histories, clocks, hash keys, addresses, environment and log levels against a fresh-process reference",
 "C08": "deterministic simulation with fault injection: seeded thread interleavings at basic-block steps, stalled and killed threads, against solo runs",
 "C09": "deterministic simulation with fault injection: operations placed in thread start, callbacks, unwinding, thread-local destructors and exit handlers of simulated processes",
 "C10": "deterministic simulation with fault injection: rule loads under seeded hash keys, histories, interruptions and interleavings",
 "C21": "deterministic simulation with fault injection: macro expansions after seeded histories, interruptions and interleavings against a fresh-process reference",
}
LEVEL = {"C01": "fault_enumeration", "C02": "fault_enumeration", "C03": "fault_enumeration", "C04": "fault_enumeration"}
NOTE = {
 "C01": "Seeded search: random expressions and writers; for each, a series of failure points covering the text. Trusts the Rust formatting machinery. Absence of violations is evidence for what was explored, not proof.",
 "C02": "Seeded search over values, serde_json and bincode entry points and stream behaviours; for each, a series of failure points covering the record. Trusts serde, serde_json and bincode.",
 "C03": "Seeded search; for small records every cut and every bit flip is tried, for larger ones an even sample. JSON text records only.",
 "C04": "Seeded search; for each operation of a run a series of interruption points covering it. Allocation failure unwinds through an alloc error hook, as a caller may configure; the default aborts the process, which leaves nothing to check.",
 "C05": "Seeded search over rounds of work; memory is counted exactly by the simulated allocator. Growth is judged after warm-up rounds, so one-time caches bounded by the code are allowed.",
 "C06": "Seeded search over schedules of holders on one thread (expressions cannot cross threads).",
 "C07": "Seeded search over histories and environments; the reference is a process that did nothing before.",
 "C08": "Seeded search over interleavings of real OS threads run one at a time; switches happen at any instrumented basic block, allocation, release or blocking call. Sequentially consistent memory only.",
 "C09": "Seeded search over moments of a thread's and a process's life; the reference is the same operation in ordinary code of a fresh process.",
 "C10": "Seeded search over hash keys, histories and interleavings of the rule loader, compiled from the working tree as ordinary code.",
 "C21": "Seeded search over histories, interruptions and interleavings of expansions; the macros are compiled from the working tree as ordinary code, with tokens held by proc_macro2 and not by a compiler.",
}
NA = {
 "C11": "Rewriting is a pure function of the expression: no schedule, clock, fault or interleaving takes part, so there is nothing for a simulator to vary; this is a subject for numeric or symbolic oracles over generated inputs.",
 "C12": "A derivative is a pure function of the expression and the variable; no nondeterminism or fault can influence it, so simulation decides nothing here.",
 "C13": "Number arithmetic is a pure function of two numbers; it has no schedule, fault or environment to simulate.",
 "C14": "Comparison and hashing laws quantify over inputs only; no execution order or fault is involved.",
 "C15": "Stability and confluence of reduction quantify over inputs only; no execution order or fault is involved.",
 "C16": "Unambiguity of the text is a property of a pure function from expressions to strings (what a failing sink sees of that text is C01).",
 "C17": "Polynomial views are pure functions of an expression and a list of variables; nothing nondeterministic takes part.",
 "C18": "The macro is a pure function from token streams to code at compile time; nothing nondeterministic takes part.",
 "C19": "Substitution is a pure function of its arguments (what an interrupted one leaves behind is C04, what sharing does to it is C06).",
 "C20": "Panics and runaway recursion on well-formed inputs are decided by the input alone; no schedule, fault or environment takes part (operations cut short from outside are C04, stopped threads are C08).",
}
na = [dict(property=k, reason=v) for k, v in NA.items()]
na += [dict(property=k, reason="check under construction") for k in TECH if k not in CLAIMED]
sims = ["sim"] + (["simrubi"] if {"C10", "C21"} & set(CLAIMED) else [])
d = dict(version=1,
  setup_cmd=" && ".join(f"./build.sh {s}" for s in sims),
  checks=[dict(property=k, quick_cmd=f"./check.sh {k}", thorough_cmd=f"./check.sh {k} --thorough", evidence_file=f"evidence/{k}.json",
    technique=TECH[k], level=LEVEL.get(k, "exploration"), level_note=NOTE[k]) for k in TECH if k in CLAIMED],
  not_applicable=na,
  notes="No hooks in /repo: the simulator compiles the code under test with compiler-inserted basic-block callbacks and replaces the allocator and the C library's time, randomness, environment and blocking calls at link time. ./check.sh replay FILE replays a violation.")
json.dump(d, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "a").write("\n")
