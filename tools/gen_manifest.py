#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def three(t):
    """at most three sentences: the later ones are joined by semicolons"""
    import re
    q = re.split(r"(?<=[a-z0-9)])\. (?=[A-Z])", t)
    while len(q) > 3:
        k = min(range(len(q) - 1), key=lambda i: len(q[i]) + len(q[i + 1]))
        b = q[k + 1]
        w = b.split(" ")[0]
        b = b if w.isupper() or any(c.isupper() for c in w[1:]) else b[0].lower() + b[1:]
        q[k:k + 2] = [q[k] + "; " + b]
    return ". ".join(q)


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, level="proof", note="", observe=None, na=None):
    d = dict(id=id, title=title, statement=three(statement), quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, technique, level, note))
    if na:
        NA.append(dict(property=id, reason=na))


exec(open(os.path.join(V, "tools", "props.txt")).read())
P.sort(key=lambda x: x[0]["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
na = {x["property"] for x in NA}
man = dict(version=1, setup_cmd="python3 tools/setup.py",
           checks=[dict(property=d["id"], quick_cmd="python3 check.py %s quick" % d["id"], thorough_cmd="python3 check.py %s thorough" % d["id"],
                        technique=t, level=l, level_note=n) for d, t, l, n in P if d["id"] not in na],
           not_applicable=NA,
           notes="Every check reads /repo's current sources (compiled to LLVM IR or parsed), decides without executing them, and reports the construct at fault.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks,", len(NA), "not applicable")
