#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PC, CC, TT, SL, TO = "planner_cspace/", "costmap_cspace/include/costmap_cspace/", "trajectory_tracker/include/trajectory_tracker/", "safety_limiter/", "track_odometry/"
PI, PS = PC + "include/planner_cspace/", PC + "src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na))


exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(V, "props", p["id"] + ".py")) and not p["na"]:
        checks.append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
                           technique="contract-based deductive verification (VC generation over the compiled code, loop invariants, SMT discharge)",
                           level="proof", level_note=p["note"] or NOTE))
    else:
        na.append(dict(property=p["id"], reason=p["na"] or "no check has been built for this property yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh",
               hooks=dict(guard="none", enable="no hooks: the checks compile /repo's sources unchanged", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="See DESIGN.md. Exit 2 means the check could not be built or is vacuous."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
