#!/usr/bin/env python3
"""Regenerates the fixed entries of known_findings.jsonl from the fix: commits of /repo (property by table below); known entries are kept."""
import json, os, subprocess, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = [l.rstrip("\n").split("\t") for l in open(H + "/tools/fixed.tsv")]   # property <tab> distinctive words of the commit subject
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s", "0d9c44b..HEAD"], text=True).splitlines()]
path = H + "/known_findings.jsonl"
keep = [l for l in open(path)] if os.path.exists(path) else []
keep = [l for l in keep if l.strip() and json.loads(l)["status"] == "known"]
out, miss = [], []
for h, s in log:
    ps = [p for p, k in T if k in s]
    if not ps: miss.append(s)
    for p in ps:
        w = s[5:] if s.startswith("fix: ") else s
        out.append(json.dumps({"property": p, "status": "fixed", "commit": h[:12], "what": w, "line": "fixed: property=%s %s %s" % (p, h[:12], w)}) + "\n")
open(path, "w").writelines(keep + out)
print(len(out), "fixed entries,", len(keep), "known"); print("\n".join("NO PROPERTY: " + m for m in miss))
