#!/usr/bin/env python3
"""Write MANIFEST.json from spec.py (run by hand after changing the claims)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from spec import PROPS, UNCLAIMED  # noqa: E402
checks = [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
           "technique": s["technique"], "level": s["level"], "level_note": s["note"]} for p, s in sorted(PROPS.items())]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(UNCLAIMED.items())],
     "notes": "No hooks in /repo. Every check rebuilds the explorers (mc/, gen/) against /repo's working tree."}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
