#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = props.NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/selftest.py",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo. Each check extracts the contracted functions from /repo's current sources, discharges every obligation with SMT solvers, and runs the property's conformance harness on the real code. Approach per property: DESIGN.md."}
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "contract-based deductive verification (Why3/SMT) of functions extracted from /repo's clang AST" + P.get("technique_note", ""),
            "level": P.get("level", "proof"), "level_note": P.get("level_note", props.LEVEL_NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
