#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks (run after tools/props.py)."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
from vf import registry
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        checks.append(dict(property=i, quick_cmd="bin/check %s" % i, thorough_cmd="VERIF_TIER=thorough bin/check %s" % i,
                           evidence_file="evidence/%s.json" % i, technique=registry.TECHNIQUE.get(i, registry.DEFTECH),
                           level=registry.LEVEL.get(i, "model_checking"), level_note=registry.NOTE.get(i, registry.DEFNOTE)))
    else:
        na.append(dict(property=i, reason=registry.NA.get(i, "not built yet")))
m = dict(version=1, setup_cmd="bin/setup", hooks=dict(guard="none", enable="no hooks: the checks compile /repo's unmodified sources with link-time interposition (ld --wrap, seccomp traps)", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="TLA+ specifications in specs/, judged by TLC; harness/ binds them to the code of /repo. See DESIGN.md.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
