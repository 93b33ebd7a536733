#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(D)
sys.path.insert(0, D)
from props import PROPS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 --version && clang++ --version && ninja --version", "checks": [], "not_applicable": [],
     "notes": "Every check builds its own instrumented copy of /repo's current sources under /verif/build; no hooks are needed in /repo. See DESIGN.md."}
for p in props:
    if p["id"] in PROPS:
        P = PROPS[p["id"]]
        m["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json", "technique": P.get("technique", "runtime monitoring: online monitors over generated workloads, under sanitizers"), "level": "exploration",
            "level_note": P.get("note", "Held on the executions produced by the workload (counts in the evidence file); says nothing about executions not produced. Trusts the reference models in harness/ and the sanitizer runtimes.")})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "unclaimed")
