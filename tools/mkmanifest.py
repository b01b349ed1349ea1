#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist. Run by hand after adding a property."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAMPLER = ("Seeded search over simulated runs of the real samplers; target, clock, faults and random stream belong to the "
           "simulator. Covers the generated configurations (1 to 3 dimensions, 4 and 5 in a few runs, small batches), not all inputs.")
NOTE = {
    "S": SAMPLER,
    "M": "Seeded search over simulated runs of the real metrics (clock, heap and random stream simulated).",
    "D": "Seeded search over simulated runs of the real distributions with adversarial but legal outcomes of the random generator.",
    "U": "Seeded search over schedules of the real code; the scheduler decides every preemption, poll and clock reading.",
    "V": "Seeded search over paired simulated runs of the real samplers, benchmark runner and plotting code, with and without watching.",
    "P": "Seeded search over random streams of the real metrics, compared with quadrature.",
    "R": "Seeded search over simulated runs of the real benchmark runner with real and scripted samplers and targets, on a "
         "simulated clock and disk with injected crashes, disk errors, target and sampler failures.",
}
NA = {
    "P01": "Pure functions of their argument: no schedule, clock, I/O, randomness or fault can change a density formula, so simulation has nothing to decide.",
    "P03": "A pure conversion of a description into text: no concurrency, time, fault or history is involved.",
    "P04": "Plotting is a pure function of a finished results file; nothing in it depends on schedules, time or faults.",
    "P05": "Integer arithmetic on one argument; nothing for a simulator to control.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    if not os.path.exists(os.path.join(HERE, "sim", "props", i + ".py")):
        na.append({"property": i, "reason": "The check is not built yet."})
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "technique": "deterministic simulation with fault injection, seeded search with replayable minimised plans",
                   "level": "exploration", "level_note": NOTE[i[0]]})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; sys.exit(0)\"", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam is installed from outside by sim/kernel.py. Known findings: known_findings.json."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
