#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from config import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(
            property=i,
            quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the compiled code (LLVM IR), assertions decided by Z3",
            level="other",
            level_note="Bounded: holds for all inputs within the bounds; " + p["bounds"],
        ))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(
    version=1,
    setup_cmd="python3 tools/setup.py",
    hooks=dict(guard="none: no hook was needed in /repo", enable="nothing to enable", source_commits=[]),
    checks=checks,
    not_applicable=na,
    notes="Every check builds what it needs itself; setup_cmd only warms the build directories. See DESIGN.md.",
)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
