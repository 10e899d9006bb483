#!/usr/bin/env python3
import json, sys, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(V / "lib"), str(V / "checks"), str(V)]
import check
NOTES = json.loads((V / "tools/levels.json").read_text())
props = [json.loads(l)["id"] for l in open(V / "properties.jsonl")]
checks, na = [], []
for p in props:
    if p in check.TABLE:
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p,
                       "thorough_cmd": "python3 check.py %s thorough" % p,
                       "technique": NOTES[p]["technique"], "level": "model_checking", "level_note": NOTES[p]["note"]})
    else:
        na.append({"property": p, "reason": NOTES.get(p, {}).get("reason", "the check is not built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(V / "MANIFEST.json", "w"), indent=1)
