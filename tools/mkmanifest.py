"""Writes /verif/MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = {}
exec(open(os.path.join(HERE, "tools", "levels.py")).read())
checks, na = [], []
for i in ids:
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "/opt/venv/bin/python run.py %s --tier quick" % i,
            "thorough_cmd": "/opt/venv/bin/python run.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification checked with TLC: " + CLAIMED[i][0], "level": "model_checking", "level_note": CLAIMED[i][1]})
    else:
        na.append({"property": i, "reason": NOT.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
