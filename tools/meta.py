#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and the property part of harness/checks.json.
Run `python3 tools/meta.py` after editing; the generated files are committed."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # (property, check)
NA = []         # not applicable


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique=None, level="exploration", note=None, drivers=(), rule=None, assumptions=(), hang=20):
    p = {"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": list(files), "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                     "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe), "hook_needed": None}}
    assert len(title) <= 80, title
    P.append((p, {"technique": technique, "level": level, "note": note, "drivers": list(drivers), "rule": rule, "assumptions": list(assumptions), "hang": hang}))


exec(open(os.path.join(H, "tools", "props.py")).read())

P.sort(key=lambda x: x[0]["id"])
with open(H + "/properties.jsonl", "w") as f:
    for p, _ in P:
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 check.py --prebuild",
       "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": c["technique"], "level": c["level"], "level_note": c["note"]} for p, c in P if c["drivers"]],
       "not_applicable": [{"property": i, "reason": r} for i, r in NA],
       "notes": "No hooks: every check drives the unmodified library compiled from /repo's working tree. See DESIGN.md."}
json.dump(man, open(H + "/MANIFEST.json", "w"), indent=1)
cj = json.load(open(H + "/harness/checks.json"))
cj["properties"] = {p["id"]: {"drivers": c["drivers"], "level": c["level"], "rule": c["rule"], "assumptions": c["assumptions"], "hang": c["hang"]} for p, c in P if c["drivers"]}
json.dump(cj, open(H + "/harness/checks.json", "w"), indent=1)
print(len(P), "properties")
