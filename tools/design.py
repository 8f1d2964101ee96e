#!/usr/bin/env python3
"""DESIGN.md from tools/design.md, properties, known_findings.jsonl, seeded/ and tools/caught.tsv; numbers come from the last evidence files."""
import json, os, glob, collections
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(H + "/tools/design.md").read()
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(H + "/MANIFEST.json"))["checks"]}
cj = json.load(open(H + "/harness/checks.json"))["properties"]
o = []; te = ts = 0
fix = collections.OrderedDict()
for l in open(H + "/known_findings.jsonl"):
    d = json.loads(l); fix.setdefault((d["commit"], d["what"]), []).append(d["property"])
for p in props:
    i = p["id"]; m = man[i]; ev = H + "/evidence/%s.json" % i; e = json.load(open(ev)) if os.path.exists(ev) else None
    o.append("### %s %s\n" % (i, p["title"]))
    o.append(p["statement"] + "\n")
    o.append("* *Decided by* %s (driver `%s`)." % (m["technique"], "`, `".join(cj[i]["drivers"])))
    o.append("* *Bounds:* " + p["quantifier"]["text"] + ".")
    o.append("* *Observed at:* " + ", ".join("`%s`" % x if "::" in x or "(" in x else x for x in p["anchors"]["observe_at"]) + ".")
    o.append("* *Why tests cannot:* " + p["why_tests_cant"] + ".")
    if m.get("level_note"): o.append("* *Reach:* " + m["level_note"])
    if e and e["tier"] == "quick":
        c = e["coverage"]; te += c["evaluations"]; ts += c.get("states", 0)
        o.append("* *Quick tier, measured:* %s cases, %s compared states, %.0f s, spaces %s." % (f"{c['evaluations']:,}", f"{c.get('states', 0):,}", e["wall_s"], ", ".join(x["space"].split(".")[1] for x in c["spaces"])))
    o.append("")
s = s.replace("{{PROPS}}", "\n".join(o))
s = s.replace("{{TOTAL}}", "%s cases with %s compared states" % (f"{te:,}", f"{ts:,}"))
s = s.replace("{{FIXES}}", "| commit | property | what failed |\n|---|---|---|\n" + "\n".join("| %s | %s | %s |" % (c, ", ".join(dict.fromkeys(v)), w.replace("|", "\\|")) for (c, w), v in fix.items()))
caught = dict(l.rstrip("\n").split("\t") for l in open(H + "/tools/caught.tsv")) if os.path.exists(H + "/tools/caught.tsv") else {}
t = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(H + "/seeded/*")):
    m = json.load(open(d + "/meta.json")); n = os.path.basename(d); t.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "\\|"), caught.get(n, "?")))
s = s.replace("{{SEEDED}}", "\n".join(t))
mu = H + "/tools/mutation.md"
s = s.replace("{{MUTATION}}", open(mu).read() if os.path.exists(mu) else "")
open(H + "/DESIGN.md", "w").write(s)
