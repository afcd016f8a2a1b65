#!/usr/bin/env python3
"""Writes ../properties.jsonl, ../MANIFEST.json from the entries in props/*.json
(one file per property) plus harness/props.json.  Run by hand after editing."""
import json, os, glob
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
cfg = json.load(open(f"{V}/harness/props.json"))
ents = []
for f in sorted(glob.glob(f"{HERE}/props/*.json")):
    ents += json.load(open(f))
ents.sort(key=lambda e: e["id"])
assert len({e["id"] for e in ents}) == len(ents)
out, checks = [], []
for e in ents:
    assert len(e["title"]) <= 80, e["id"]
    out.append({"id": e["id"], "title": e["title"], "statement": e["statement"],
        "quantifier": {"over": e["over"], "text": e["qtext"]}, "why_tests_cant": e["why"],
        "anchors": {"files": e["files"],
                    "mechanism": [{"name": a, "where": b} for a, b in e["mech"]],
                    "observe_at": e["observe"], "hook_needed": None}})
    if e["id"] not in cfg:
        print("no harness for", e["id"]); continue
    i = e["id"]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json", "technique": e["technique"],
        "level": "exploration", "level_note": e["note"]})
for i in cfg:
    if i not in {e["id"] for e in ents}: print("no property entry for", i)
open(f"{V}/properties.jsonl", "w").write("".join(json.dumps(o, ensure_ascii=False) + "\n" for o in out if o["id"] in cfg))
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
  "notes": "No hooks in /repo: harnesses are compiled into the module through a go build overlay and use its exported API; "
           "genuine defects found are repaired in /repo as fix: commits, listed with the remaining findings in known_findings.txt."},
  open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{V}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks")
# DESIGN.md: tables between markers
import re
d = open(f"{HERE}/DESIGN.tmpl.md").read()
rows = []
for e in ents:
    if e["id"] not in cfg: continue
    rows.append(f"### {e['id']} {e['title']}\n\nTechnique: {e['technique']}. Oracle and inputs: {e['qtext']}. "
                f"Limits: {e['note']} Beyond the tests: {e['why']}"
                + (f"\n\n{e['design']}" if e.get("design") else "") + "\n")
seeds = ["| seeded change | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(f"{HERE}/seed_results.json")) if os.path.exists(f"{HERE}/seed_results.json") else {}
for s in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    seeds.append(f"| {s}: {m['what_it_breaks']} | {m['property']} | {m['needs']} | {res.get(s, '')} |")
open(f"{V}/DESIGN.md", "w").write(d.replace("@@PROPS@@", "\n".join(rows)).replace("@@SEEDS@@", "\n".join(seeds)))
