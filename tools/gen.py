#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and vcg/props.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "..", "vcg"))
sys.dont_write_bytecode = True
import props

L = "src/oifitslib/"
T = []


def P(id, title, statement, over, text, tests, files, mech, state=(), observe=(), na=None):
    T.append(dict(na=na, id=id, rec=dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(files=[L + f for f in files], state=[dict(name=a, meaning=b, where=L + c) for a, b, c in state],
                     mechanism=[dict(name=a, where=L + b) for a, b in mech], observe_at=list(observe), hook_needed=None))))


exec(open(os.path.join(H, "texts.py")).read())

with open(os.path.join(H, "..", "properties.jsonl"), "w") as f:
    for t in T:
        f.write(json.dumps(t["rec"]) + "\n")
checks, na = [], []
for t in T:
    i = t["id"]
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=p.get("technique", "contracts on the C functions, verification conditions from clang's AST, discharged by Z3"),
                           level=p["level"], level_note=p["note"]))
    else:
        na.append(dict(property=i, reason=t["na"] or "no check built yet"))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the verifier reads the unmodified sources; contracts live in vcg/spec_*.py."),
          open(os.path.join(H, "..", "MANIFEST.json"), "w"), indent=1)
