#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the records below.  A property is claimed when its harness exists."""
import json
import os

V = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m) for n, m in state], observe_at=observe, hook_needed=False),
                  _technique=technique, _note=note))


exec(open(os.path.join(V, "tools/records.py")).read())

REASONS = {}
exec(open(os.path.join(V, "tools/not_applicable.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(V, "harness", p["id"] + ".cpp")):
        checks.append(dict(property=p["id"], quick_cmd="./run.py %s" % p["id"], thorough_cmd="./run.py %s --tier=thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=p["_technique"], level="model_checking",
                           level_note=p["_note"]))
    else:
        na.append(dict(property=p["id"], reason=REASONS.get(p["id"], "no check has been built for it yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not:", " ".join(x["property"] for x in na))
