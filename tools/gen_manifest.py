#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = json.load(open(os.path.join(V, "tools", "notes.json")))
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    technique, note = N[p["id"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": "tools/check.sh %s --tier quick" % p["id"],
        "thorough_cmd": "tools/check.sh %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": technique,
        "level": "exploration",
        "level_note": note,
    })
m = {
    "version": 1,
    "setup_cmd": "tools/setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: every event the monitors need is observable through the public traits (Goal, Logger, "
             "StopChecker, the operator traits, AlgorithmState) and through a stand-in for the generator core below "
             "rand::thread_rng(), which lives in /verif/mon/vendor. Known findings and repaired defects: known_findings.txt.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
