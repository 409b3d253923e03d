#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
from props import PROPS
V = os.path.dirname(H)
have = {os.path.basename(f)[:3] for f in os.listdir(f"{V}/harness") if f.startswith("P")}
with open(f"{V}/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
        assert len(p["title"]) <= 80, p["id"]
checks = [dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough", evidence_file=f"evidence/{p['id']}.json",
    technique="property-based testing: " + p["note"], level="exploration", level_note="Falsification by coverage-guided generated-input search with shrinking; no exhaustive claim. Bounds and generators in DESIGN.md.") for p in PROPS if p["id"] in have]
json.dump(dict(version=1, setup_cmd="python3 check.py P01 --build", hooks=dict(guard="none", enable="no hooks: the checks compile /repo's sources unmodified", source_commits=[]), checks=checks,
    not_applicable=[dict(property=p["id"], reason="harness not built yet") for p in PROPS if p["id"] not in have],
    notes="Every check compiles its harness against /repo's working tree (content-hash cached under build/, git-ignored) and runs it for the tier's time budget. VERIF_SEED selects the random seed."), open(f"{V}/MANIFEST.json", "w"), indent=1)
