#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/config.py and properties.jsonl."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from config import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
         if l.split(" ", 1)[1].startswith("hook:")]
checks, na = [], []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
                       "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check is registered for it yet")})
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "--cfg thermal_verif (RUSTFLAGS), declared nowhere else", "enable": "RUSTFLAGS='--cfg thermal_verif' for the Kani builds; the native builds use public API only", "source_commits": hooks},
     "checks": checks, "not_applicable": na,
     "notes": "bin/check <id> rebuilds everything from /repo's working tree; bin/replay <file> reruns a reported failing input."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
