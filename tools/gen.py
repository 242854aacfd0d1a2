#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl and /verif/MANIFEST.json from one table (run by hand when a property changes)."""
import json, subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), hook=None, state=(), level="exploration", technique="", note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook,
                   state=[dict(name=n, meaning=m, where=w) for n, m, w in state]),
      _level=level, _technique=technique, _note=note))

exec(open(os.path.join(ROOT, "tools", "properties_src.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, sort_keys=False) + "\n")

checks = []
for p in P:
    if p["id"] not in CLAIMED: continue
    checks.append(dict(property=p["id"], quick_cmd="./check %s" % p["id"], thorough_cmd="VERIF_TIER=thorough ./check %s" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique=p["_technique"], level=p["_level"], level_note=p["_note"]))
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="build tag: verif", enable="go test -c -tags verif (done by ./check)", source_commits=HOOK_COMMITS),
    checks=checks, not_applicable=[dict(property=i, reason=r) for i, r in NOT_APPLICABLE],
    notes="See DESIGN.md. Replays: ./check <ID> --replay <path>.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(checks), "claimed")
