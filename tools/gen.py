#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique, claim=True, reason=None, trusted=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": mech, "where": files[0]}]}, _note=level_note, _tech=technique, _claim=claim, _reason=reason))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
m = {"version": 1, "setup_cmd": "python3 sa/dump.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                 "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["_tech"], "level": "other",
                 "level_note": p["_note"]} for p in P if p["_claim"]],
     "not_applicable": [{"property": p["id"], "reason": p["_reason"]} for p in P if not p["_claim"]],
     "notes": "All checks are static: they read the type-checked MIR of the current tree (rustc_private driver under driver/), "
              "never run the crate's code and call no solver. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
