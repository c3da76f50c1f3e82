#!/usr/bin/env python3
"""writes MANIFEST.json from vc/props.py (claimed) and the reasons below (not claimed)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/vc")
from props import PROPS, NOT_APPLICABLE
checks = []
for pid, P in PROPS.items():
    checks.append({"property": pid, "quick_cmd": f"python3-vt vc/check.py {pid} quick", "thorough_cmd": f"python3-vt vc/check.py {pid} thorough",
        "evidence_file": f"evidence/{pid}.json", "technique": P["technique"], "level": P["level"], "level_note": P["level_note"], "theorems": P.get("theorems", [])})
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
na = [{"property": i, "reason": NOT_APPLICABLE[i]} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "python3-vt vc/check.py setup", "hooks": {"guard": "none (no hooks were needed: the verifier reads the compiler's MIR)", "enable": "nothing to enable", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Checks compile /repo's working tree with a rustc driver, generate verification conditions from its MIR and discharge them with z3/cvc5; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
