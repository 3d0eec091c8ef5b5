#!/usr/bin/env python3
"""Writes DESIGN.md from its hand written parts, the findings and the planted bugs."""
import glob, json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
out = open("tools/design_head.md").read() + "\n" + open("tools/design_props.md").read()
k = json.load(open("known_findings.json"))
out += "\n# Known findings\n\nGenuine defects which aren't repaired, mostly because existing tests require the behaviour. Each is reported as KNOWN-FINDING\nby a world of its own; any other kind of violation in that world, or the same kind elsewhere, is still an alarm.\n\n"
for f in k["findings"]:
    out += f"- **{f['property']}** ({f['world']}, {f['kind']}): {f['what']}\n"
out += "\n# Repaired defects\n\nFound by the simulation, each repaired with a `fix:` commit in /repo.\n\n"
for f in k["fixed"]:
    out += f"- {f.removeprefix('fixed: ')}\n"
out += "\n# Planted bugs\n\nWritten from the property and the code, kept in seeded/. `caught` is what `./check <property> quick` reported with the patch applied.\n\n| bug | property | needs | caught |\n|---|---|---|---|\n"
caught = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
for d in sorted(glob.glob("seeded/*/")):
    m = json.load(open(d + "meta.json"))
    name = d.split("/")[1]
    out += f"| {name} | {m['property']} | {m['needs']} | {caught.get(name, '?')} |\n"
p = "tools/design_tail.md"
if os.path.exists(p):
    out += "\n" + open(p).read()
open("DESIGN.md", "w").write(out)
