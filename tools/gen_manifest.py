#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and specs.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import specs
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = specs.NOT_APPLICABLE if hasattr(specs, "NOT_APPLICABLE") else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, level="model_checking",
            technique=s.get("technique", "bounded-exhaustive state enumeration of the real code against an exact reference model"),
            level_note=s.get("note", "Exhaustive over the operand, environment and configuration spaces listed in the evidence file; nothing is claimed for values outside them. Trusts the reference computation in src/%s and the platform (compiler, FPU)." % s["jobs"][0]["src"])))
    else: na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    hooks=dict(guard="none", enable="no hooks: the checks compile the unmodified headers of /repo (constant-evaluation paths are reached by predefining __builtin_is_constant_evaluated in the harness)", source_commits=[]),
    notes="Every check builds its explorers from /repo's current tree in a scratch directory and removes it.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
