#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.json-like table."""
import json, os
from props import PROPS, NA, COMMITS
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p.get("over", ["inputs"]), text=p["quant"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p.get("observe", []), hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="cd gowp && . /opt/vp/env.sh && go build -o /dev/null .", checks=[
    dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
         thorough_cmd="python3 check.py %s thorough" % p["id"],
         technique="contract-based deductive verification (gowp: executable contracts on the real Go functions, SSA to SMT verification conditions)",
         level="proof", level_note=p["note"]) for p in PROPS],
    hooks=dict(guard="verif", enable="no hooks are needed: contracts are overlaid on /repo/src at load time (go/packages overlay, go test -overlay)", source_commits=[]),
    not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA])
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
for p in PROPS + NA:
    assert len(p["title"]) <= 80, p["id"]
