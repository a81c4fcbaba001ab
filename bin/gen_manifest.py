#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOTES, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {"version": 1, "setup_cmd": "python3 bin/setup_check.py",
     "hooks": {"guard": "none", "enable": "no hooks: the drivers use the friend classes DivaTests and InfixStoreTests that the original header declares", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": "python3 bin/check.py %s quick" % p,
                 "thorough_cmd": "python3 bin/check.py %s thorough" % p,
                 "technique": NOTES[p][0], "level": "model_checking", "level_note": NOTES[p][1]} for p in sorted(PROPS)],
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
