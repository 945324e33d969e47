"""Writes MANIFEST.json from the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = json.load(open(os.path.join(HERE, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTE["na"]:
        na.append({"property": i, "reason": NOTE["na"][i]})
    elif os.path.exists(os.path.join(HERE, "sim", "props", i.lower() + ".py")):
        checks.append({
            "property": i, "quick_cmd": f"bash check.sh {i} --tier quick", "thorough_cmd": f"bash check.sh {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection (seeded schedules, interruptions and device faults; reference-model and history oracles)",
            "level": "exploration", "level_note": NOTE["level"].get(i, NOTE["default"]),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
doc = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy, torch, gpytorch, cvxpy, matplotlib'", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
