"""writes MANIFEST.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, H)
from tools.levels import LEVEL, NA
props = [json.loads(l) for l in open(f"{H}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
        continue
    lv, tech, note = LEVEL[i]
    checks.append(dict(property=i, quick_cmd=f"./check.py {i} --tier quick", thorough_cmd=f"./check.py {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", technique=tech, level=lv, level_note=note))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(f"{H}/MANIFEST.json", "w"), indent=1)
