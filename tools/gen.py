#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props_data.py."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props_data import PROPS, NOT_APPLICABLE
na = {n["property"] for n in NOT_APPLICABLE}
with open(HERE + "/properties.jsonl", "w") as f:
    for p in PROPS:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=p["mech"], hook_needed=None))
        if p["state"]:
            d["anchors"]["state"] = p["state"]
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        for fn in p["files"]:
            assert os.path.exists("/repo/" + fn), fn
        f.write(json.dumps(d) + "\n")
m = dict(
    version=1,
    setup_cmd="true",
    checks=[dict(property=p["id"],
                 quick_cmd=f"./check {p['id']} --tier quick",
                 thorough_cmd=f"./check {p['id']} --tier thorough",
                 technique=p["technique"], level="exploration", level_note=p["note"])
            for p in PROPS if p["id"] not in na],
    not_applicable=NOT_APPLICABLE,
    notes="Each check compiles its harness and the repository sources it needs from /repo's "
          "working tree into /verif/build (ignored by git), runs it, and writes evidence/<id>.json. "
          "No hooks in /repo are used. See DESIGN.md.")
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
