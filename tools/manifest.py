"""Writes MANIFEST.json from the checks that exist and the notes below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json")))
props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, "harness", "checks", p.lower() + ".py")) and p in NOTES:
        checks.append({
            "property": p, "quick_cmd": f"bin/check {p} quick",
            "thorough_cmd": f"bin/check {p} thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": NOTES[p]["technique"], "level": "model_checking",
            "level_note": NOTES[p]["note"]})
    else:
        na.append({"property": p, "reason": "the model and conformance check for this property "
                                            "are not built yet"})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC; conformance harness in "
                    "harness/. See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
