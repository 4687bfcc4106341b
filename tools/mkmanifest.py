#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
PURE = "A pure function of its arguments: no scheduling, time, I/O, fault or multi-party behaviour enters it, so a simulated schedule or fault cannot change its result; deciding it is plain input testing or proof, which is another family."
NA = {
 "N04": PURE + " (log2ceil is still exercised by every root of C03.)",
 "N05": PURE + " (The conversions used by decoding and text are exercised by C04 and C09.)",
 "N06": "Compile-time constants: nothing executes.",
}
LEVEL = {}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py check " + i, "thorough_cmd": "python3 run.py check " + i,
            "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "Check under construction.")})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "MAMMON_SIM", "enable": "No hook was needed: the simulator takes control at the binary interface (breakpoints, cpuid and instruction rewriting, allocator, sanitizer callbacks), so no guarded change exists in /repo and the guard is never defined.", "source_commits": []},
     "notes": "Every check runs a seeded simulator and reports VIOLATION lines with a minimised, exactly reproducing replay file under replays/ (python3 run.py replay FILE). See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
