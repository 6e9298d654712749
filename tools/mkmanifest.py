#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
cl, na = [], []
for p in props:
    i = p["id"]
    if hasattr(checks, i.lower()):
        t, n = NOTES[i]
        cl.append(dict(property=i, quick_cmd="python3 check.py " + i,
                       thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                       technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason=NOTES.get("NA", {}).get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3 setup.py",
               hooks=dict(guard="verif", enable="no hooks are needed: the checks use the public API, io interfaces and the built tools", source_commits=[]),
               checks=cl, not_applicable=na,
               notes="TLA+ specifications in spec/, TLC does all judging; Go harness in harness/ records what the real code does."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(cl), "claimed", len(na), "not")
