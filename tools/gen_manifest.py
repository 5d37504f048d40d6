#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C19": "A pure function of one or two characters: no schedule, fault, time or interleaving can matter, so it is not a simulation target. (Its answers are nevertheless compared with the data while C12 explores concurrent and re-entrant use.)",
 "C20": "A pure function of one character: no schedule, fault, time or interleaving in it. (Compared with the data under concurrent use by C12.)",
 "C21": "A constant compared with constant tables: there is no execution to simulate.",
}
T = {
 "C01": "deterministic simulation: seeded source/consumer schedules against a UAX #15 reference model",
 "C02": "deterministic simulation: seeded source/consumer schedules against a UAX #15 reference model",
 "C03": "deterministic simulation: seeded source/consumer schedules against a UAX15-D4 reference model",
 "C04": "deterministic simulation: seeded source/consumer schedules against a reference model",
 "C05": "deterministic simulation: every source poll counted against the model's bound, at every answer",
 "C06": "deterministic simulation with fault injection: temporary ends, polls after the end",
 "C07": "deterministic simulation: seeded interleavings of clones, displays, pulls and drops against the model",
 "C08": "deterministic simulation with fault injection: failing and unwinding sinks",
 "C09": "deterministic simulation with fault injection: unwinding sources",
 "C10": "deterministic simulation with fault injection: accounting allocator, drops at any instant",
 "C11": "deterministic simulation with fault injection: exhausted heap and n-th allocation failing",
 "C12": "deterministic simulation: seeded scheduler over real threads; switches at seam crossings and between instructions; re-entry, migration",
 "C13": "deterministic simulation with fault injection: cut-offs of a growing stream, verdict histories against the model",
 "C14": "deterministic simulation with fault injection: crash and restart with only committed output surviving",
 "C15": "deterministic simulation with fault injection: stacked adapters against the staged model, and algebraic laws",
 "C16": "deterministic simulation with fault injection: callbacks unwinding and re-entering at every call",
 "C17": "deterministic simulation: seeded mixtures of consumption operations against the model",
 "C18": "deterministic simulation with fault injection: damaged stored bytes, containment and totality",
 "C22": "deterministic simulation with fault injection: the same seeded schedules and faults executed by both builds, histories compared",
 "C23": "deterministic simulation: steps (blocks, loads, stores, copies) counted as the simulator's clock, bounded by n log r",
}
NOTE = ("Seeded sampling, not proof: a clean run is evidence over the runs, faults and states its evidence file counts. "
        "Trusts the reference model and its copy of the Unicode 16.0.0 data (both independent of /repo), and the compiler.")
EXTRA = {
 "C05": " The bound is the earliest point at which the delivered characters settle the answer, computed by the model.",
 "C10": " Bound per stream and stage: 64 bytes per character of the longest run of non-starters in the text plus a constant of about 4.6 kB.",
 "C11": " Allocation failure is made to surface as an unwinding by the standard library's alloc-error hook (unstable; enabled in the simulator only).",
 "C12": " Threads are switched at every seam crossing and, in a third build instrumented by the compiler, between basic blocks, loads and stores; memory is sequentially consistent (no weak-memory reordering).",
 "C22": " Compares the two builds with each other, not with the model; the generators are those of the other properties.",
 "C23": " The constant is generous (250 steps per character read or written by a stage and doubling of the run; the clean tree uses about an eighth of it): a worse order of growth is found on long texts and runs, a constant factor is not.",
 "C16": " Every scalar value, with unwinding at every call, is covered in each quick run.",
}
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: every seam is a type parameter, argument or process-wide facility already in the API. Replay a violation with: bash replay.sh FILE"}
for p in sorted(T):
    m["checks"].append({"property": p, "quick_cmd": f"bash check.sh {p}", "thorough_cmd": f"bash check.sh {p}",
                        "evidence_file": f"evidence/{p}.json", "technique": T[p], "level": "exploration", "level_note": NOTE + EXTRA.get(p, "")})
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
