#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(os.path.join(V, "tools/claimed.txt")).read().split()
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))}
SEQ = "Stateless model checking of the real crates: every event history up to the depth bound is enumerated, executed on the implementation and compared step by step with an executable reference model."
THR = "Stateless model checking of the real crates under a controlled scheduler (std facade): every interleaving up to the preemption bound is executed and checked against a linearizability/quiescence oracle."
BEV = "Stateless model checking of the real bevy plugin: every sequence of app actions up to the depth bound is executed against a bevy App and compared with a reference model."
def tech(p):
    if p[0] == "K": return THR
    if p[0] in "BA": return BEV
    return SEQ
checks = []
for p in CLAIMED:
    checks.append({
        "property": p,
        "quick_cmd": f"bash /verif/check.sh {p} quick",
        "thorough_cmd": f"bash /verif/check.sh {p} thorough",
        "technique": tech(p),
        "level": "model_checking",
        "level_note": props[p]["quantifier"]["text"],
    })
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": "No check registered yet (machinery under construction)."} for p in props if p not in CLAIMED]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
