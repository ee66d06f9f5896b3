#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the type-checked SSA (normal-form terms, linear integer facts, loop summaries); every return path compared with the reference formula"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, technique=AI, note="", claim=True, reason=""):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append((d, technique, note, claim, reason))
NA = []
exec(open(os.path.join(here, "tools", "props.py"), encoding="utf-8").read())
with open(os.path.join(here, "properties.jsonl"), "w", encoding="utf-8") as f:
    for d, *_ in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks = []
for d, t, note, claim, reason in P:
    if claim:
        checks.append(dict(property=d["id"], quick_cmd=f"./run.sh {d['id']} quick", thorough_cmd=f"./run.sh {d['id']} thorough",
                           technique="static analysis: " + t, level="other", level_note=note))
    else:
        NA.append(dict(property=d["id"], reason=reason))
m = dict(version=1, setup_cmd="./run.sh build", checks=checks, not_applicable=NA,
         notes="One static analyser (checker/, Go, golang.org/x/tools/go/ssa) decides every property from /repo's current source; run.sh builds it and runs one check. No hooks are needed in /repo.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w", encoding="utf-8"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(checks), "checks")
