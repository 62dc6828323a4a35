"""Writes /verif/MANIFEST.json from the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools", "vx"))
from registry import PROPS, NOT_CLAIMED
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "contract-based deductive verification (Verus on functions extracted from /repo on every run), contracts replayed on the real code"
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i} --quick", "thorough_cmd": f"bash check.sh {i} --thorough", "evidence_file": f"evidence/{i}.json",
                   "technique": p.get("technique", TECH), "level": "proof", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": NOT_CLAIMED.get(i, "no check built")} for i in ids if i not in PROPS],
     "notes": "See DESIGN.md. Every check extracts the functions from /repo's working tree, verifies them with Verus, and replays the contracts on the real code."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "claimed,", len(m["not_applicable"]), "not")
