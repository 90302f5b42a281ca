#!/usr/bin/env python3
"""writes MANIFEST.json from the table of checks"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in props.CHECKS:
        n = props.NOTES.get(i, props.DEFAULT_NOTE)
        checks.append(dict(property=i, quick_cmd="python3 checks/run.py %s quick" % i, thorough_cmd="python3 checks/run.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=n[0], level=props.CHECKS[i][1], level_note=n[1]))
na = [dict(property=i, reason="check under construction") for i in ids if i not in props.CHECKS]
m = dict(version=1, setup_cmd="python3 checks/setup.py", checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, harnesses in harness/, scenario generation and trace validation in lib/. No hooks in /repo are needed: harnesses compile /repo's sources themselves.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
