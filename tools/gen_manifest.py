#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN
NA = {
    "C20": "A pure function of one machine word: no schedule, clock, fault, I/O or history exists for a simulator to decide; choosing words would be input generation only.",
    "C21": "Pure arithmetic on its arguments (sizes, masks, addresses): nothing nondeterministic or failing for a simulator to control; its consequences for overflowing requests are checked where they matter (C10, C11, C16).",
    "C22": "A quantitative space bound for long vectors, a function of length alone: no schedule, fault or interleaving can influence it (whether reported sizes are true is C14).",
    "C23": "Needs a 32-bit target; only the x86_64 standard library is installed and nothing can be fetched, so the 32-bit code cannot be built, let alone simulated.",
}
titles = {}
for l in open(os.path.join(HERE, "properties.jsonl")):
    d = json.loads(l)
    titles[d["id"]] = d["title"]
checks = []
for p in sorted(PLAN):
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "deterministic simulation with fault injection: " + PLAN[p]["technique"],
        "level": "exploration",
        "level_note": PLAN[p]["note"] + " Sampled executions, not all; trusts the simulator in /verif/sim, rustc and std. No hook in /repo: the seams are public traits, the global allocator and compiler-inserted basic-block callbacks.",
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py build",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
    "notes": "Replays of violations are written to /verif/replays and run with ./replay.sh FILE. known_findings.txt lists repaired defects. ./check.py determinism runs every simulation repeatedly and compares event digests.",
}
missing = sorted(set(titles) - set(PLAN) - set(NA))
m["not_applicable"] += [{"property": k, "reason": "not built yet"} for k in missing]
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
