#!/usr/bin/env python3
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks = [dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
    technique=plan.PLAN[i]["technique"], level="exploration", level_note=plan.PLAN[i]["note"]) for i in ids if i in plan.PLAN]
na = [dict(property=i, reason=plan.__dict__.get("NA", {}).get(i, "machinery not built yet")) for i in ids if i not in plan.PLAN]
m = dict(version=1, setup_cmd="python3 -c 'import sys; assert sys.version_info >= (3, 8)' && cd harness && cargo build --offline --release -q",
    hooks=dict(guard="none", enable="no hooks: the monitors use the public API, an interposed clock and an instrumented allocator in their own process", source_commits=[]),
    checks=checks, not_applicable=na)
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
