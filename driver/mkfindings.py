#!/usr/bin/env python3
"""Maintainer tool (never run by a check): lists the fix: commits of /repo in known_findings.json. Keeps the 'known' entries."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [  # (pattern in the commit subject, property)
    ("dominated within the tolerances", "P03"),
    ("associated with the selected reference line", "P08"), ("parallel loops use as many", "P17"),
    ("ideal and nadir points of", "P30"), ("hypervolume of many points", "P08"), ("selection probabilities are NaN", "P08"), ("default algorithm isn't deduced", "P33"),
    ("small_vector", "P26"), ("default mutation rate", "P04"), ("generation end callback", "P04"), ("dynamic fitness functions trip", "P05"),
    ("optimal solutions kept", "P03"), ("parallel loop", "P17"), ("tournament selection asserts", "P11"), ("rank selection", "P11"), ("sigma scaling", "P11"),
    ("integer uniform mutation", "P10"), ("shift mutation", "P10"), ("NSGA-II assigns", "P13"), ("NSGA-III niching", "P14"),
    ("randomReal", "P21"), ("sampleUnique", "P21"), ("fix: rcu", "P20"), (" rcu ", "P20"), ("stop condition", "P23"), ("very high maximum", "P23"), ("ypervolume", "P24"), ("circular_buffer", "P27"), ("dynamic_bitset", "P28"),
    ("mutations that use other mutations", "P02"), ("iterator", "P28"), ("ConeTree", "P29"), ("cone tree", "P29"), ("floatIs", "P29"), ("matrix", "P28"), ("uniform_bool_distribution", "P21"), ("QuasiRandom", "P22"), ("queue", "P18"), ("lock", "P19"),
]
f = os.path.join(V, "known_findings.json")
out = [e for e in json.load(open(f))["findings"] if e["status"] == "known"]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"): continue
    prop = next((p for k, p in P if k in s), None)
    if not prop: raise SystemExit("no property for: " + s)
    out.append({"status": "fixed", "property": prop, "commit": h, "what": f"fixed: property={prop} {h} {s[4:].strip()}"})
json.dump({"findings": out}, open(f, "w"), indent=1)
print(len(out))
