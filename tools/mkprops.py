#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, state, mech, observe, hook, technique, note, na=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook),
                  _t=technique, _n=note, _na=na))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
m = dict(version=1, setup_cmd="true",
         hooks=dict(guard="VERIF_HOOKS (unused: the drivers subclass the public agent, solver and back-end classes; no hook was needed in /repo)",
                    enable="not needed", source_commits=[]),
         checks=[dict(property=p["id"], quick_cmd="bin/check %s quick" % p["id"],
                      thorough_cmd="bin/check %s thorough" % p["id"],
                      technique=p["_t"], level="model_checking", level_note=p["_n"],
                      evidence_file="evidence/%s.json" % p["id"]) for p in P if not p["_na"]],
         not_applicable=[dict(property=p["id"], reason=p["_na"]) for p in P if p["_na"]],
         notes=NOTES)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
