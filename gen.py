#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os

V = os.path.dirname(os.path.abspath(__file__))
ALL = "every input of the stated kind, on every path of the compiled program"

# id, title, statement, quantifier text, why tests cannot, files, mechanism, technique note
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors={"files": files, "mechanism": mech}, note=note))


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors={"files": files, "mechanism": mech}), reason))


exec(open(os.path.join(V, "props.py")).read())

claimed = [p for p in P if os.path.exists(os.path.join(V, "sa/checks", p["id"].lower() + ".py"))]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
    for p, reason in NA:
        f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 sa/build.py",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "python3 sa/run.py %s quick" % p["id"],
            "thorough_cmd": "python3 sa/run.py %s thorough" % p["id"],
            "technique": "static analysis: " + p["note"],
            "level": "other",
            "level_note": "Static analysis of the type-checked MIR of the current tree (no execution); exact where every value it needs is resolved, silent (counted as undecided) where it is not.",
        }
        for p in claimed
    ],
    "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA] + [{"property": p["id"], "reason": "check not built yet"} for p in P if p not in claimed],
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties", len(claimed), "claimed", len(NA), "not applicable")
