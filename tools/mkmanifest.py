#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and spec/notes.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(V + "/spec/notes.json"))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    n = notes.get(p["id"], {})
    if n.get("claimed"):
        checks.append({"property": p["id"], "quick_cmd": "bin/check %s quick" % p["id"], "thorough_cmd": "bin/check %s thorough" % p["id"],
            "technique": n.get("technique", "contracts on the real Go code, verification conditions generated from its SSA on every run and discharged by z3 and cvc5; bounded falsifier replays failures"),
            "level": n.get("level", "proof"), "level_note": n["level_note"]})
    else:
        na.append({"property": p["id"], "reason": n.get("reason", "not under contract yet")})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
  "notes": "No hooks: contracts live in /verif/spec and are laid over /repo when it is loaded. Repairs of defects in /repo are the fix: commits listed in known-findings.txt."}, open(V + "/MANIFEST.json", "w"), indent=1)
