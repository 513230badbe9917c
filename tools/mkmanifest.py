"""Write MANIFEST.json from properties.jsonl and the tables here."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
import importlib.util
ns = {}
exec(open(os.path.join(V, "tools", "manifest_tables.py")).read(), ns)
checks, na = [], []
for i in ids:
    if i in ns["NA"]:
        na.append({"property": i, "reason": ns["NA"][i]})
    else:
        checks.append({"property": i, "quick_cmd": f"./check check {i} --tier quick", "thorough_cmd": f"./check check {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": ns["TECH"].get(i, ns["DEFAULT"]), "level": "exploration",
                       "level_note": ns["NOTE"].get(i, ns["DEFNOTE"])})
m = {"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
