#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS
V = os.path.dirname(HERE)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["for_all"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check builds the compiler-internal MIR dumper in /verif/driver, compiles /repo's current tree with it (cargo check, features "
              "python+parallel) and decides the property on the dumped, type-checked program. No code of /repo is executed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks", len(na), "not applicable")
