#!/usr/bin/env python3
"""Single source of truth for properties.jsonl (run after editing)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over.split(), text=quant),
                  why_tests_cant=why,
                  anchors=dict(files=files.split(), mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

C = "core/src/component/"
N = "network/src/"
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.txt")).read())
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
