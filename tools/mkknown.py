#!/usr/bin/env python3
"""known-findings.json from the fix commits of /repo and the list of findings below"""
import json, subprocess, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
PROP = {  # commit subject -> property
 "make key lookup": "C01", "copying a coefficient manager": "C05", "getTimesInWindow": "C04", "addCoefficientAtEnd on an empty": "C01",
 "modifyCoefficient onto": "C01", "batch modification": "C06", "refitting a CubicHermiteE3Curve": "C20", "evaluating an empty Hermite": "C10",
 "slope at the seam": "C09", "time offset of": "C18", "refitting a scalar curve": "C20", "advancing a spline container": "C14",
 "stale active spline": "C14", "setData without knots": "C17", "rejected piecewise": "C17", "getDDiffTimeVector": "C12",
 "time vectors at zero": "C12", "CSV loaders": "C19", "CSV writer": "C19", "clearing an SE3 curve": "C20", "lowering the sampling ratio": "C07",
 "message without joints": "C21", "long or short splines": "C13", "knots far apart": "C16",
}
out = {"findings": [], "fixed": []}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        p = [v for k, v in PROP.items() if k in s]
        assert len(p) == 1, (s, p)
        out["fixed"].append("fixed: property=%s %s %s" % (p[0], h, s[5:]))
(V / "known-findings.json").write_text(json.dumps(out, indent=1) + "\n")
