#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from meta.py, checks.py, known_findings.json and design/*.md"""
import glob, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from meta import P
import meta
from checks import CHECKS
NA = getattr(meta, "NA", {})
rows = []
for pid in sorted(P):
    p = P[pid]
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p["observe"]: a["observe_at"] = p["observe"]
    if p["state"]: a["state"] = p["state"]
    for f in p["files"]:
        if not os.path.exists("/repo/" + f): print("no such file", pid, f)
    assert len(p["title"]) <= 80, (pid, len(p["title"]))
    if p["statement"].count(". ") > 2: print("more than three sentences?", pid)
    rows.append({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"], "anchors": a})
with open(V + "/properties.jsonl", "w") as f:
    for r in rows: f.write(json.dumps(r) + "\n")
checks = []
for pid in sorted(P):
    if pid in NA: continue
    assert pid in CHECKS, pid
    c = CHECKS[pid]
    lvl = P[pid].get("level") or "exploration"
    checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid} quick", "thorough_cmd": f"python3 check.py {pid} thorough",
                   "technique": P[pid]["technique"], "level": lvl,
                   "level_note": "Generated-input search: shows the presence of violations, not their absence. Trusts the harness model in harness/%s.cc, the compiler and its sanitizer (%s build).%s" % (c["harness"], c.get("variant", "asan"), P[pid]["note"])})
m = {"version": 1, "setup_cmd": "python3 build.py", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
with open(V + "/MANIFEST.json", "w") as f: f.write(json.dumps(m, indent=1) + "\n")
out = open(V + "/design/head.md").read() + "\n## Properties\n"
for pid in sorted(P):
    p = P[pid]; c = CHECKS.get(pid)
    out += f"\n### {pid} {p['title']}\n\n{p['statement']}\n\n"
    if pid in NA: out += f"Not applicable: {NA[pid]}\n"; continue
    out += f"*Deciding method*: {p['technique']}. {p['design']}\n\n*Bounds and cost*: quick {c['quick']['cases']} cases or {c['quick']['seconds']} s, thorough {c['thorough']['cases']} cases or {c['thorough']['seconds']} s, on 8 workers; {c.get('variant','asan')} build; harness/{c['harness']}.cc. Counted: {c['rule']}.\n\n*Beyond the tests*: {p['why']}\n"
out += "\n## Genuine defects found\n\nRepaired in /repo by `fix:` commits:\n\n"
k = json.load(open(V + "/known_findings.json"))
for x in k.get("fixed", []): out += f"- {x}\n"
out += "\nRecorded, not repaired:\n\n"
for x in k["findings"]: out += f"- **{x['id']}** ({x['property']}): {x['what']} — {x['where']}\n"
out += "\n## Planted bugs\n\n| id | property | needs | caught by |\n|---|---|---|---|\n"
caught = json.load(open(V + "/design/caught.json")) if os.path.exists(V + "/design/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); mm = json.load(open(d))
    out += f"| {i} | {mm['property']} | {mm['needs']} | {caught.get(i, '?')} |\n"
out += "\n" + open(V + "/design/tail.md").read()
open(V + "/DESIGN.md", "w").write(out)
print(len(rows), "properties,", len(checks), "checks")
