#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABS = "abstract interpretation of rustc MIR over abstract patch documents"
PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, note=None, na=None, state=(), observe=()):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    assert len(title) <= 80, title
    PROPS.append((d, technique, note, na))


exec(open(os.path.join(HERE, "tools", "props.py")).read())
exec(open(os.path.join(HERE, "tools", "methods.py")).read())

PROPS.sort(key=lambda p: p[0]["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for d, *_ in PROPS:
        fh.write(json.dumps(d) + "\n")
checks, na = [], []
for d, tech, note, n in PROPS:
    if n:
        na.append({"property": d["id"], "reason": n})
    else:
        checks.append({"property": d["id"], "quick_cmd": "python3 sa/check.py " + d["id"], "thorough_cmd": "python3 sa/check.py " + d["id"],
                       "evidence_file": "evidence/%s.json" % d["id"], "technique": tech, "level": "other", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 sa/extract.py", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only. One rustc driver (driver/) dumps MIR, types, ADTs and monomorphic callees of /repo's current source as JSON (cached by source hash under build/); the rules in sa/ are evaluated on that. No hooks in /repo."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print("%d properties, %d checks, %d not applicable" % (len(PROPS), len(checks), len(na)))

# DESIGN.md
tmpl = open(os.path.join(HERE, "tools", "design.tmpl.md")).read()
out = []
for d, tech, note, n in PROPS:
    if not n:
        out.append("### %s %s\n\n%s\n\n*Technique:* %s. *Over:* %s.\n*Reach beyond tests:* %s\n" % (d["id"], d["title"], METHODS[d["id"]], tech, d["quantifier"]["text"], d["why_tests_cant"]))
nas = ["* **%s** %s: %s" % (d["id"], d["title"], n) for d, tech, note, n in PROPS if n]
kf = [json.loads(l) for l in open(os.path.join(HERE, "known-findings.jsonl"))]
fixes = ["* %s (%s): %s" % (k["commit"], k["property"], k["what"].split(None, 3)[-1]) for k in kf if k["status"] == "fixed"]
seeds = ["| planted bug | caught by | needs |", "|---|---|---|"]
for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
    seeds.append("| %s | %s | %s |" % (s, MISSED.get(s, m["property"]), m["needs"].replace("|", "/")))
for a, b in (("PROPS", out), ("NA", nas or ["(none)"]), ("FIXES", fixes), ("SEEDS", seeds)):
    tmpl = tmpl.replace("@@%s@@" % a, "\n".join(b))
with open(os.path.join(HERE, "DESIGN.md"), "w") as fh:
    fh.write(tmpl)
