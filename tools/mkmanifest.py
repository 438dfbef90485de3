#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import props
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd="bin/check %s" % i, thorough_cmd="VERIF_TIER=thorough bin/check %s" % i,
                           technique=p["technique"], level=p["level"], level_note=p["note"]))
na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in props.PROPS]
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
               notes="Specifications in spec/ (TLA+), harness in harness/ (public API only, no hooks in /repo). See DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
