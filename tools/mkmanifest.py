#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the table below.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
claimed, na = {}, {}
exec(open(V + "/tools/claims.py").read())
tech = "bounded symbolic execution of the Go SSA of the current tree, assertions decided by an SMT solver (z3/cvc5), counterexamples replayed natively"
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in claimed:
        m["checks"].append({"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
            "technique": tech, "level": "model_checking", "level_note": claimed[p]})
    else:
        m["not_applicable"].append({"property": p, "reason": na.get(p, "no check built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
