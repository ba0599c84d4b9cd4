#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, na.json and the scenarios present."""
import json, os, glob
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = json.load(open(os.path.join(V, "na.json")))
have = {os.path.basename(p)[:-4].upper() for p in glob.glob(os.path.join(V, "sim", "c[0-9][0-9].cpp"))}
NOTE = ("Bounded, sampled: seeded exploration of simulated executions of the real code in the three build configurations (heap/asserts/ASan, pmr, custom allocator); "
        "trusts the reference model in /verif/sim, the compiler and the sanitizers. A clean batch is evidence, not proof.")
m = {"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: all seams (allocation, clock, callbacks, streams, links) are on the library's public surface or at link level."}
for p in props:
    i = p["id"]
    if i in na:
        m["not_applicable"].append({"property": i, "reason": na[i]})
    elif i in have:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py --prop %s --tier quick" % i,
                            "thorough_cmd": "python3 check.py --prop %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": "deterministic simulation with fault injection (seeded schedules and faults, reference model oracle, minimised replay)",
                            "level": "exploration", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
