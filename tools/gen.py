#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and nzsa/spec.py."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, os.path.join(V, "tools")]
from props import PROPS
from nzsa.spec import SPEC, NA
ids = [p["id"] for p in PROPS]; assert len(set(ids)) == len(ids)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS: f.write(json.dumps(p) + "\n")
man = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[])
for p in PROPS:
    i = p["id"]
    if i in SPEC:
        s = SPEC[i]
        man["checks"].append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique=s.get("technique", "abstract interpretation of LLVM IR (symbolic linear and bit-vector domain, inductive loop summaries, element lifetime typestate)"),
            level=s["level"], level_note=s["note"]))
    else: man["not_applicable"].append(dict(property=i, reason=NA.get(i, "not built yet")))
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "claimed,", len(man["not_applicable"]), "not applicable")
