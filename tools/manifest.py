#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/claims.json."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
props = [json.loads(l) for l in open("properties.jsonl") if l.strip()]
claims = json.load(open("tools/claims.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claims["not_applicable"]:
        na.append({"property": i, "reason": claims["not_applicable"][i]})
        continue
    if i not in claims["notes"]:
        na.append({"property": i, "reason": "no check claims it yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i} quick",
        "thorough_cmd": f"./check {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: seeded search over simulated runs of the real code",
        "level": "exploration",
        "level_note": claims["notes"][i],
    })
json.dump({"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na,
           "notes": claims["text"]}, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
