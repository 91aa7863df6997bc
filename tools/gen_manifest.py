#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl; properties in NA are not claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
TODO = set(open(V + "/tools/todo.txt").read().split()) if os.path.exists(V + "/tools/todo.txt") else set()
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA: na.append({"property": i, "reason": NA[i]}); continue
    if i in TODO: na.append({"property": i, "reason": "check under construction"}); continue
    checks.append({
        "property": i,
        "quick_cmd": f"bin/check.sh {i} quick",
        "thorough_cmd": f"bin/check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: seeded search over schedules and faults, real contract wasm in a simulated network, checked against a reference model",
        "level": "exploration",
        "level_note": "Every oracle is evaluated on each executed receipt of many seeded simulated runs; sampled schedules, faults and inputs, no proof.",
    })
m = {"version": 1, "setup_cmd": "bin/setup.sh", "checks": checks, "not_applicable": na}
try:
    old = json.load(open(V + "/MANIFEST.json"))
    for k in old:
        if k not in m: m[k] = old[k]
except FileNotFoundError: pass
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
