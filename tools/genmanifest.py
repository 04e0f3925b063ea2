#!/usr/bin/env python3
# writes /verif/MANIFEST.json from vlib/specs.py and properties.jsonl
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "vlib"))
import specs
NA = dict(getattr(specs, "NOT_APPLICABLE", {}))
checks, na = [], []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                           technique=s.get("technique", "symbolic execution of the LLVM bitcode of the real code with an SMT solver (z3)"),
                           level="model_checking",
                           level_note="holds for all values within the stated bounds: " + " | ".join(u["bounds"] for u in s["units"] if u["bounds"])))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="make -s -C engine -j4", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
