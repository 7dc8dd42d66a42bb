#!/usr/bin/env python3
"""Writes MANIFEST.json and DESIGN.md from techniques.json, DESIGN.in.md and seeded_notes.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
P = [json.loads(l) for l in open(here + "/properties.jsonl")]
T = json.load(open(here + "/techniques.json"))
NA = json.load(open(here + "/not_applicable.json")) if os.path.exists(here + "/not_applicable.json") else {}
checks, na, rows = [], [], []
for p in P:
    i = p["id"]
    if os.path.exists(f"{here}/checks/{i}.py") and i in T:
        t = T[i]
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} --thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t[0], "level": "exploration", "level_note": t[1]})
        rows.append(f"| {i} {p['title']} | {t[0]} | {t[2] if len(t) > 2 else ''} | {t[1]} |")
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet: work in progress")})
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.path.insert(0, \"lib\"); import vlib'", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks compile /repo's sources with sanitizers and observe the public interfaces."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
d = open(here + "/DESIGN.in.md").read()
d = d.replace("@@TABLE@@", "\n".join(rows))
d = d.replace("@@NA@@", "\n".join(f"* {x['property']}: {x['reason']}" for x in na) or "None: every property is decided by monitored executions.")
s = json.load(open(here + "/seeded_notes.json"))
rows = ["| seeded change | property | caught by |", "|---|---|---|"]
for k in sorted(os.listdir(here + "/seeded")):
    rows.append(f"| {k} | {json.load(open(f'{here}/seeded/{k}/meta.json'))['property']} | {s.get(k, '?')} |")
d = d.replace("@@SEEDED@@", "\n".join(rows)).replace("@@EXTRA@@", "")
open(here + "/DESIGN.md", "w").write(d)
print(len(checks), "checks,", len(na), "without;", len(rows) - 2, "seeded")
