#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in registry.TABLE:
        mod, fn, level, tech, note = registry.TABLE[p]
        checks.append({"property": p, "quick_cmd": f"bin/check {p}", "thorough_cmd": f"VERIF_TIER=thorough bin/check {p} --thorough",
                       "technique": tech, "level": level, "level_note": note, "evidence_file": f"evidence/{p}.json"})
na = [{"property": p, "reason": registry.PENDING.get(p, "check not built yet")} for p in props if p not in registry.TABLE]
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specification in spec/, checked with TLC; no hooks in /repo are needed: the checks compile "
                    "/repo's sources themselves in many configurations and observe them from outside."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
