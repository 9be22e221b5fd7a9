#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one source (run by hand when the list changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, level_note, technique="deterministic simulation with fault injection: seeded search", hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)), level_note, technique))

exec(open(os.path.join(V, "tools", "proplist.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    for p in NA: f.write(json.dumps(p[0], ensure_ascii=False) + "\n")
man = dict(version=1, setup_cmd="python3 build.py", hooks=dict(guard="none: no guarded hooks were added to /repo (the seams used are template parameters, constructor arguments, and system calls interposed by the harness)", enable="nothing to enable", source_commits=[]),
    checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}", evidence_file=f"evidence/{p['id']}.json", technique=t, level="exploration", level_note=n) for p, n, t in P],
    not_applicable=[dict(property=p["id"], reason=r) for p, r in NA])
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
import jsonschema
for p, *_ in P + NA: jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(P), "claimed,", len(NA), "not applicable")
