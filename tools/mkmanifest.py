import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys_notes = {}
exec((V / "tools" / "notes.py").read_text(), sys_notes)
NOTES, NA = sys_notes["NOTES"], sys_notes["NA"]
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "harness" / f"{i.lower()}.py").exists() and i in NOTES:
        tech, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; bound to /repo by replaying TLC's transitions in the real code and by TLC validating recorded executions."}
hooks = sys_notes.get("HOOKS")
if hooks:
    m["hooks"] = hooks
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), len(na))
