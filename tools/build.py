"""Write properties.jsonl and MANIFEST.json from properties.py, checks.py and the checks folder."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from properties import P
from notes import TECH, NA, NOTES

root = os.path.dirname(here)
assert len({p["id"] for p in P}) == len(P)
for p in P:
    assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    path = f"checks/{i.lower()}.py"
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(root, path)):
        tech, note = TECH[i]
        cmd = f"PYTHONHASHSEED=0 /opt/venv/bin/python /verif/{path}"
        checks.append(
            {
                "property": i,
                "quick_cmd": f"VERIF_TIER=quick {cmd}",
                "thorough_cmd": f"VERIF_TIER=thorough {cmd}",
                "evidence_file": f"evidence/{i}.json",
                "technique": tech,
                "level": "exploration",
                "level_note": note,
            }
        )
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not claimed")
