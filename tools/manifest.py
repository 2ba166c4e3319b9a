#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness packages present."""
import json, os
os.chdir(os.path.join(os.path.dirname(__file__), '..'))
props = [json.loads(l) for l in open('properties.jsonl')]
NA = {
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.isdir('harness/h/' + i.lower()):
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "symbolic execution of the Go SSA of /repo with z3 deciding branches and assertions; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Bounded: every input, split, fault point or schedule within the bounds stated in each harness comment (copied into the evidence file). Trusts the engine's SSA semantics, its library models (differential-tested) and z3; sampled paths are re-run against the real build each time, and only natively reproduced counterexamples are reported.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks are compiled into /repo; harnesses use its exported API from /verif/harness."},
          open('MANIFEST.json', 'w'), indent=1)
print(len(checks), "checks", len(na), "not applicable")
