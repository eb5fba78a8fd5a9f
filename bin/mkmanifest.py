#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and units.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import units
checks = []
for ln in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(ln)["id"]
    checks.append(dict(property=p, quick_cmd="python3 bin/check.py %s quick" % p, thorough_cmd="python3 bin/check.py %s thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=units.TECH, level=units.level(p), level_note=units.note(p)))
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=[],
         notes="See DESIGN.md. No hooks in /repo: contracts live in /verif/contracts and include /repo's source text on every run.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
