#!/usr/bin/env python3
"""Writes known_findings.json: the recorded findings (tools/findings.json) and one 'fixed' line per fix commit."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
props = json.load(open(os.path.join(V, "tools", "fixes.json")))     # subject -> property ids
fixed = []
for line in log.splitlines():
    h, _, s = line.partition(" ")
    if s.startswith("fix:"):
        for p in props.get(s, ["??"]):
            fixed.append("fixed: property=%s %s %s" % (p, h, s[5:]))
            if p == "??":
                print("no property recorded for:", s)
f = os.path.join(V, "tools", "findings.json")
findings = json.load(open(f)) if os.path.exists(f) else []
json.dump({"findings": findings, "fixed": fixed}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(findings), "findings,", len(fixed), "fixed")
