"""Writes MANIFEST.json from the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "level_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        n = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f"bash run_check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough bash run_check.sh {i}",
                           evidence_file=f"evidence/{i}.json", technique=n["technique"], level="model_checking", level_note=n["note"]))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get("na", "check not built yet")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="TLA+ specifications in spec/, checked with TLC; conformance by trace validation. See DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
