#!/usr/bin/env python3
"""Writes MANIFEST.json from mbv/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from mbv.registry import CHECKS, NOTES, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "TLA+ specification checked with TLC, bound by transition-tour replay and trace validation"
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [],
     "not_applicable": [],
     "notes": "No hooks: every check compiles the unmodified sources of /repo's working tree."}
for p in props:
    if p in CHECKS:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                            "evidence_file": "evidence/%s.json" % p,
                            "technique": NOTES.get(p, {}).get("technique", TECH), "level": "model_checking",
                            "level_note": NOTES.get(p, {}).get("note", "see DESIGN.md")})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
