#!/usr/bin/env python3
"""Regenerates the "fixed" list of known_findings.json from the fix: commits of /repo (property map below)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = json.load(open(os.path.join(V, "tools", "fixmap.json")))
p = os.path.join(V, "known_findings.json")
k = json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        for key, prop in MAP:
            if key in s:
                out.append("fixed: property=%s %s %s" % (prop, h, s[5:]))
                break
        else:
            sys.exit("no property for: " + s)
k["fixed"] = out
json.dump(k, open(p, "w"), indent=1)
print(len(out), "fixed,", len(k["findings"]), "findings")
