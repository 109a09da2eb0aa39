#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below (run by hand, output committed)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na))

exec(open(os.path.join(HERE, "meta_props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
built = [p for p in P if os.path.exists(os.path.join(HERE, "harness", p["id"] + ".cc")) and not p["na"]]
m = {"version": 1, "setup_cmd": "python3 build.py P01",
     "checks": [{"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
                 "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in built],
     "not_applicable": [{"property": p["id"], "reason": p["na"] or "no check built yet"} for p in P if p not in built],
     "notes": "Checks need no hooks in /repo. Replays of failures go to replays/ (ignored by git); known findings are listed in known_findings.txt with committed replays in known/. ./check PXX --replay FILE re-runs one."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
# DESIGN.md from DESIGN.md.in
table = "\n".join("| %s | %s | %s | %s |" % (p["id"] + ("" if p in built else " (not claimed)"), p["title"] + ": " + p["technique"].split(": ", 1)[-1], p["text"], p["why"]) for p in P)
kf = open(os.path.join(HERE, "known_findings.txt")).read().splitlines()
fixed = "\n".join("- " + l[len("fixed: property="):] for l in kf if l.startswith("fixed:"))
findings = [l for l in kf if l.startswith("finding:")]
ftext = ("### Known findings (not repaired)\n\n" + "\n".join("- " + l[len("finding: property="):] for l in findings)) if findings else "No known finding is left unrepaired."
seeded = open(os.path.join(HERE, "SEEDED.txt")).read().strip() if os.path.exists(os.path.join(HERE, "SEEDED.txt")) else "None yet."
t = open(os.path.join(HERE, "DESIGN.md.in")).read().replace("@@TABLE@@", table).replace("@@FIXED@@", fixed).replace("@@FINDINGS@@", ftext).replace("@@SEEDED@@", seeded)
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
