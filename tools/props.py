#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  `python3 tools/props.py`"""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe or [], state=state or []))
exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

run = open(os.path.join(ROOT, "run.sh")).read()
built = set()
for m in re.finditer(r"^\s*((?:C\d\d\|?)+)\) echo (\w+) ;;", run, re.M):
    built |= set(m.group(1).split("|"))

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], state=p["state"],
                         mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p["observe"], hook_needed=None)), ensure_ascii=False) + "\n")

man = dict(version=1, setup_cmd="./run.sh setup", checks=[], not_applicable=[],
    notes="No hooks: every check drives the public APIs, the built programs or the shipped Typst files of /repo's working tree. Fixed work per run, seeded by VERIF_SEED.")
for p in P:
    if p["id"] in built:
        man["checks"].append(dict(property=p["id"], quick_cmd=f"./run.sh {p['id']}",
            thorough_cmd=f"env VERIF_TIER=thorough ./run.sh {p['id']}", evidence_file=f"evidence/{p['id']}.json",
            technique=p["technique"], level="exploration", level_note=p["note"]))
    else:
        man["not_applicable"].append(dict(property=p["id"], reason="check not built yet"))
if not man["not_applicable"]:
    del man["not_applicable"]
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(man["checks"]), "checks")
