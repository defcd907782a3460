#!/usr/bin/env python3
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from yx.table import RULES, LEVEL, TECH, TECHS, NOTE, NOTES
NA = {
 "N01": "Quantifies over the histories of two communicating processes and a transport; no sound static argument over one crate's source decides equality of byte streams end to end. The per-step halves are decided as C01-C05, C07-C09 and C21.",
 "N02": "Liveness under an unbounded schedule with futures-rs' own scheduling inside it; not visible in the shape of this crate's code. The wake-up half is decided as C23 and C29.",
 "N03": "Progress of two peers is a liveness property of the composed system over all schedules; static analysis of one side cannot bound it. The local obligations it rests on are C11, C23 and C29.",
 "N04": "A throughput statement about measured time on a real link; runtime timing is outside static analysis. The safety half is C12.",
 "N05": "Depends on wall-clock time between wire events; runtime timing is outside static analysis. The matching of pings to pongs is C24.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in RULES:
        checks.append({"property": i, "quick_cmd": "./check.sh %s" % i, "thorough_cmd": "./check.sh %s" % i,
                       "technique": TECHS.get(i, TECH), "level": LEVEL.get(i, "other"), "level_note": NOTES.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 -m yx.build", "checks": checks, "not_applicable": na,
           "notes": "Static analysis of rustc MIR; see DESIGN.md. thorough equals quick: the analysis is already exhaustive over paths, there is no bound to deepen."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
