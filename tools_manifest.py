"""Writes MANIFEST.json from plans.py and properties.jsonl."""
import json, os
from plans import PLANS

here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in PLANS:
        pl = PLANS[pid]
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 run.py {pid} --tier quick",
            "thorough_cmd": f"python3 run.py {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": pl["technique"],
            "level": "model_checking",
            "level_note": pl["note"],
        })
    else:
        na.append({"property": pid, "reason": "check not built yet"})
json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "hooks": {"guard": "none", "enable": "no hooks are needed: every observation is made through the public interface", "source_commits": []},
    "not_applicable": na,
    "notes": "TLA+ checked with TLC; the specifications are in spec/, the drivers that bind them to the code in harness/, the plan of each check in plans.py.",
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
