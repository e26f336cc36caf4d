#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(f"{ROOT}/properties.jsonl") if l.strip()]
NOT_APPLICABLE = {}
checks = []
for p in props:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    checks.append({"property": p, "quick_cmd": f"/verif/check.py {p} --tier quick", "thorough_cmd": f"/verif/check.py {p} --tier thorough",
                   "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")} for p in props if p not in CHECKS]
m = {"version": 1, "setup_cmd": "/verif/setup.sh",
     "hooks": {"guard": "VERIF_HOOKS", "enable": "no hook is needed: the checks drive the public interface; the define is reserved and guards nothing", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Generated by tools/gen_manifest.py. Every check compiles /repo's current sources (and runs its code generator) into /verif/build before it searches."}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
open(f"{ROOT}/MANIFEST.json", "a").write("\n")
