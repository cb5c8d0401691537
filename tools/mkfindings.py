#!/usr/bin/env python3
"""Regenerates the "fixed" entries of known_findings.json from /repo's fix: commits (property by keyword)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = json.load(open(os.path.join(V, "tools", "fixmap.json")))
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
p = os.path.join(V, "known_findings.json")
keep = [e for e in json.load(open(p)) if e["status"] == "known"]
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        c = [v for k, v in M.items() if k in s]
        assert len(c) == 1, (s, c)
        keep.append(dict(property=c[0], status="fixed", commit=h, text="fixed: property=%s %s %s" % (c[0], h, s[5:])))
json.dump(keep, open(p, "w"), indent=1)
