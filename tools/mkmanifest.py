#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry below."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
import sys
sys.path.insert(0, str(root))
from harness.registry import CHECKS
props = [json.loads(l) for l in open(root / "properties.jsonl")]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    checks.append(dict(property=p["id"],
        quick_cmd=f"bash check.sh {p['id']}",
        thorough_cmd=f"env VERIF_TIER=thorough bash check.sh {p['id']}",
        technique=c["technique"], level="model_checking", level_note=c["note"]))
m = dict(version=1, setup_cmd="bash setup.sh",
    hooks=dict(guard="none", enable="no hooks: the checks observe the code through its public API only", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="TLA+ specifications in specs/, harness in harness/; see DESIGN.md. VERIF_TIER selects the depth of a check.")
json.dump(m, open(root / "MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not claimed")
