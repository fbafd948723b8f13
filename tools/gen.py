#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run from anywhere; rewrites both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []

def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, note="", claim=True, reason=""):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    PROPS.append((d, note, claim, reason))

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, *_ in PROPS:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
man = dict(version=1, setup_cmd="bash run.sh setup",
           hooks=dict(guard="none (no hooks: everything is observed through the public API)", enable="not needed", source_commits=[]),
           checks=[], not_applicable=[],
           notes="One Rust harness (/verif/harness) with a choice-sequence property-testing engine; run.sh rebuilds it against /repo's working tree on every run. See DESIGN.md.")
for d, note, claim, reason in PROPS:
    if claim:
        man["checks"].append(dict(property=d["id"], quick_cmd=f"bash run.sh {d['id']} quick",
            thorough_cmd=f"bash run.sh {d['id']} thorough", evidence_file=f"evidence/{d['id']}.json",
            technique="property-based testing: " + note.split("|")[0],
            level="exploration", level_note=note.split("|")[1]))
    else:
        man["not_applicable"].append(dict(property=d["id"], reason=reason))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(PROPS), "properties")
