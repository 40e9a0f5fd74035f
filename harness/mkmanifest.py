"""Writes /verif/MANIFEST.json from the table of registered checks (checks.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import checks
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
man = {"version": 1, "setup_cmd": "bash harness/setup.sh",
       "checks": [], "not_applicable": []}
for i in ids:
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        man["checks"].append({"property": i, "quick_cmd": f"/opt/venv/bin/python run.py {i}",
            "thorough_cmd": f"env VERIF_TIER=thorough /opt/venv/bin/python run.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": c["technique"], "level": "model_checking", "level_note": c["note"]})
    else:
        man["not_applicable"].append({"property": i, "reason": checks.NOT_YET.get(i, "check not built yet")})
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "claimed")
