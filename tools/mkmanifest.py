"""writes MANIFEST.json from the contract modules present"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMD = "cd /verif && HOME=/root PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m rtv.check {}"
LEAN = "contract-based deductive verification: the real functions are executed symbolically on every run, each postcondition is an obligation discharged by Lean 4 / Mathlib"
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json")))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES.get(i, {})
    if os.path.exists(os.path.join(HERE, "rtv", "contracts", i.lower() + ".py")) and "na" not in n:
        checks.append({
            "property": i,
            "quick_cmd": CMD.format(i),
            "thorough_cmd": CMD.format(i) + " --thorough",
            "technique": n.get("technique", LEAN),
            "level": n.get("level", "proof"),
            "level_note": n["note"],
        })
    else:
        na.append({"property": i, "reason": n.get("na", "not claimed yet: its contracts are still being written")})
m = {"version": 1, "setup_cmd": "cd /verif && HOME=/root PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import rtv.loader'", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
