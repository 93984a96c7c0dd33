#!/usr/bin/env python3
"""Writes ../MANIFEST.json from props.py and properties.jsonl (not run by the checks)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE

ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks, rest = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 checks/run.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py %s" % i,
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["note"],
        })
    else:
        rest.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
d = {
    "version": 1,
    "setup_cmd": "python3 checks/setup.py",
    "hooks": {
        "guard": 'cfg(binate_verif = "list"|"errors"|"machine"|"ids"|"header"|"chunks")',
        "enable": "RUSTFLAGS='--cfg binate_verif=\"...\"' (set by checks/run.py, per property)",
        "source_commits": ["5b16a41", "d0050de"],
    },
    "checks": checks,
    "not_applicable": rest,
    "notes": "See DESIGN.md. Evidence of contract-based deductive verification with Kani/CBMC (unbounded contracts) and Verus.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
