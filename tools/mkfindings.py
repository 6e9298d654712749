#!/usr/bin/env python3
"""Writes known_findings.json: repaired defects, one line per fix commit."""
import json, os, subprocess
P = {"3d2485f": "P09", "5da1f2c": "P09", "ebf50e7": "P07", "2244ded": "P02", "30f6594": "P07", "11bc141": "P07", "107fec3": "P07",
     "fafbe55": "P07", "a432ac6": "P01", "59d9330": "P08", "544d8b8": "P07", "5b28a8f": "P04", "f18ed6c": "P01", "987f2e1": "P15",
     "1c1585b": "P18", "65d8b1d": "P01", "f2a46fa": "P05", "d4d94df": "P04", "c888277": "P02", "c9f23f9": "P02", "295c8e5": "P02",
     "6671eb8": "P12", "c637145": "P12", "19bb64b": "P12", "ae4c0b6": "P12", "bfff8d6": "P12", "b4d0ad1": "P26", "6ebcf2b": "P10",
     "ad96ed0": "P16", "68ded46": "P17", "2c9f6a1": "P20", "456f21c": "P20", "64b084e": "P21", "cf4ccc8": "P20", "9aba856": "P21",
     "3927143": "P21", "92b53d0": "P22", "fd8ace4": "P23", "193dfc5": "P24", "092248d": "P24", "87b18e2": "P24", "47304f5": "P25",
     "5c4b155": "P25", "2574dc4": "P25", "a0911f7": "P25", "14902e4": "P15", "5cf2593": "P15"}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "470e253..HEAD"], capture_output=True, text=True).stdout
fixed = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        fixed.append("fixed: property=%s %s %s" % (P[h[:7]], h, s[5:]))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
json.dump(dict(known=[], fixed=fixed), open(out, "w"), indent=1)
print(len(fixed), "fixed")
