#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list, so the two stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, claim=True, note="", na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na, observe=observe))

exec(open(os.path.join(V, "tools", "props.py")).read())

NOTE = ("Contracts on the functions listed in evidence are discharged by govc (symbolic execution of the go/ssa form of /repo's current "
        "source, obligations decided by z3 5.3/4.8 and cvc5) for all inputs; library calls listed in evidence are trusted models, integers wrap as on a 64-bit machine, "
        "slices and strings are taken to be at most 2^47 bytes. ")
out = open(os.path.join(V, "properties.jsonl"), "w")
checks, na = [], []
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    d = dict(id=p["id"], title=p["title"], statement=p["statement"],
             quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
             anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
    if p["observe"]: d["anchors"]["observe_at"] = p["observe"]
    out.write(json.dumps(d) + "\n")
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
    else:
        checks.append(dict(property=p["id"], quick_cmd="bash /verif/run.sh check %s quick" % p["id"],
            thorough_cmd="bash /verif/run.sh check %s thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"],
            technique="contract-based deductive verification (govc contracts + SMT)",
            level="proof", level_note=NOTE + p["note"]))
m = dict(version=1, setup_cmd="bash /verif/run.sh setup", checks=checks, not_applicable=na,
    notes="See DESIGN.md. Each check verifies the contracts of its property against /repo's current source and, beside that, runs the same contracts as bounded executable checks to obtain concrete failing inputs; the bounded part is never counted as proved.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
