#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/registry.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPS, NOT_APPLICABLE, TECH
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks = [], []
def prop(id, k):
    return {"id": id, "title": k["title"], "statement": k["statement"], "quantifier": {"over": k["over"], "text": k["qtext"]},
            "why_tests_cant": k["tests"],
            "anchors": {"files": k["files"], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in k.get("state", [])],
                        "mechanism": [{"name": a, "where": b} for a, b in k["mech"]], "observe_at": k.get("observe", []), "hook_needed": None}}
for id, k in sorted(PROPS.items()):
    props.append(prop(id, k))
    assert len(k["title"]) <= 80, k["title"]
    checks.append({"property": id, "quick_cmd": "python3 tools/check.py %s --tier quick" % id,
                   "thorough_cmd": "python3 tools/check.py %s --tier thorough" % id, "technique": TECH, "level": "other",
                   "level_note": "Bounded: for every value of the symbolic inputs within the bounds (%s) the solver shows the assertions hold on "
                                 "every path explored; cases cut by the time budget are listed in the evidence. Assumes exact real arithmetic "
                                 "with IEEE specials; trusts the engine in engine/, z3/cvc5, g++ and Eigen's headers (executed symbolically). "
                                 "Outside: %s." % (k["bounds"], k["outside"])})
na = []
for k in NOT_APPLICABLE:
    props.append(prop(k["id"], k))
    na.append({"property": k["id"], "reason": k["reason"]})
props.sort(key=lambda p: p["id"])
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in props))
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Every check copies /repo's current sources, retypes the scalar, compiles them with the engine and explores."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
