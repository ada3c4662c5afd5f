#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from fixes.txt."""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "fixes.txt")) as f:
    rules = [ln.rstrip("\n").split("\t") for ln in f if ln.strip()]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h\t%s"],
                     capture_output=True, text=True).stdout
out = []
for ln in reversed(log.splitlines()):
    h, s = ln.split("\t", 1)
    if not s.startswith("fix:"):
        continue
    for pid, key, what in rules:
        if s.endswith(key) or key in s and not any(
                s.endswith(k) for _, k, _ in rules):
            out.append("fixed: property=%s %s %s" % (pid, h, what))
            break
    else:
        print("no entry for", ln)
p = os.path.join(HERE, "known_findings.json")
with open(p) as f:
    d = json.load(f)
d["fixed"] = out
with open(p, "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
