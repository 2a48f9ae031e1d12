#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a check is claimed, every other one
is not_applicable with its reason."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "checks", p + ".py")):
        spec, note = NOTE[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p,
                       "thorough_cmd": "python3 check.py %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": "TLA+ specification (%s) model-checked with TLC; TLC-generated behaviours and random histories run on the real code, recorded traces validated by TLC" % spec,
                       "level": "model_checking", "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: every property is observed through the public interface. Known findings and repaired defects: KNOWN_FINDINGS.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
