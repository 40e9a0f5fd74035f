"""Fills DESIGN.md.in into DESIGN.md (tables generated from the registered checks, findings and planted changes)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import checks
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
t = ["| id | property | specification, behaviours, bounds | quick histories | why beyond tests |", "|---|---|---|---|---|"]
for p in props:
    c = checks.CHECKS.get(p["id"])
    if c:
        specs = ", ".join("%s (%s)" % (checks.SUITES[s]["trace"], f) for s, f, _, _ in c["runs"])
        t.append("| %s | %s | %s. %s | %s | %s |" % (p["id"], p["title"], specs, c["note"], sum(r[2] for r in c["runs"]), p["why_tests_cant"]))
    else:
        t.append("| %s | %s | not claimed: %s | | |" % (p["id"], p["title"], checks.NOT_YET.get(p["id"], "check not built yet")))
f = ["* " + l.strip()[7:] for l in open(os.path.join(ROOT, "known-findings.txt")) if l.startswith("fixed:")]
s = ["| planted change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
sd = os.path.join(ROOT, "seeded")
res = {}
if os.path.exists(os.path.join(HERE, "seeded-results.json")):
    res = json.load(open(os.path.join(HERE, "seeded-results.json")))
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    s.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], res.get(d, "not run")))
x = open(os.path.join(ROOT, "harness", "DESIGN.md.in")).read()
x = x.replace("@@TABLE@@", "\n".join(t)).replace("@@FIXES@@", "Repaired (each a `fix:` commit in /repo):\n\n" + "\n".join(f)).replace("@@SEEDED@@", "\n".join(s))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(x)
