#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from properties.jsonl and the list of built checks."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
BUILT = open(os.path.join(H, "tools/built.txt")).read().split()
NA = {
 "N01": "Pure functions of a histogram: no thread, clock, I/O, randomness or second party for a simulator to control; their effect on the system is covered by F01-F05.",
 "N04": "A pure function of two arrays, used by no other part: no I/O, time, randomness, concurrency or second party for a simulator to control.",
 "N03": "Static text formatting: no nondeterminism, I/O protocol or state for a simulation to explore.",
}
NOTE_C = ("Seeded search over delivery schedules, option spellings and fault sequences; the real freqcd.c runs unmodified inside a discrete-event "
          "simulator of its streams, consumer, clock and allocator and is judged by an independent integer model. Assurance is that of the explored runs "
          "(counts in the evidence). Trusts the simulator's model of Linux read/write/select, gcc, x86-64.")
NOTE_P = ("Seeded search over plans (inputs, storage behaviour, faults, crash points, clocks, schedules); the real Python code runs unmodified above a simulated "
          "storage/clock layer and is judged by an independent reference model. Assurance is that of the explored runs (counts in the evidence). Trusts "
          "PyPy, numpy/scipy and the simulated storage layer.")
NOTE_T = ("Seeded search over fault points and interleavings of the real shell launcher in a scratch installation with a scripted stand-in compiler driven by a "
          "deterministic scheduler. Assurance is that of the explored runs. Trusts /bin/sh, coreutils and the harness.")
checks = []
na = []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in BUILT:
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "deterministic simulation with fault injection (seeded schedule/fault search, minimised replay)",
                       "level": "exploration",
                       "level_note": NOTE_C if i[0] == "C" else NOTE_T if i == "T03" else NOTE_P})
    else:
        na.append({"property": i, "reason": "Check not built yet."})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is the system-call boundary (freqcd), the file/clock/stdio layer of Python, or the compiler found through PATH (launcher)."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
