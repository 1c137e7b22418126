#!/usr/bin/env python3
"""MANIFEST.json from tools/claims.txt and properties.jsonl. (run after editing)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
claims, na = {}, {}


def claim(pid, technique, note):
    claims[pid] = (technique, note)


def not_applicable(pid, why):
    na[pid] = why


exec(open(os.path.join(V, "tools/claims.txt")).read())
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "No hooks: the checks read the compiler's MIR of /repo's current sources with a rustc driver of their own; private items need no hook.", "source_commits": []},
    "checks": [],
    "not_applicable": [],
    "notes": "Every check compiles /repo's working tree with a rustc driver built from /verif/driver and decides its property on the extracted MIR, types and impls. See DESIGN.md.",
}
for p in props:
    i = p["id"]
    if i in claims:
        t, n = claims[i]
        m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i, "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", "not built:", [x["property"] for x in m["not_applicable"] if x["reason"] == "not built yet"])
