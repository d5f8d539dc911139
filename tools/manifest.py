#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and rules.py."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import rules
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [{
    "property": i,
    "quick_cmd": f"python3 tools/check.py {i} quick",
    "thorough_cmd": f"python3 tools/check.py {i} thorough",
    "evidence_file": f"evidence/{i}.json",
    "technique": rules.TECHNIQUE.get(i, "runtime monitoring: online model-based oracle over generated types and hostile workloads"),
    "level": "exploration",
    "level_note": rules.NOTES.get(i, "No violation in the observed executions; trusts the shadow model of each generated declaration, "
                                     "the oracle's rules and rustc. Unsampled types and values are not covered."),
} for i in ids if i in rules.RULES]
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": rules.NOT[i]} for i in ids if i not in rules.RULES],
     "notes": "No hooks in /repo: everything monitored is observable through the public API. VERIF_SEED picks the generated types and values."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
