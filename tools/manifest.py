#!/usr/bin/env python3
"""writes MANIFEST.json from the specifications present"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
NOTES = json.load(open(os.path.join(vp.VERIF, "tools", "notes.json")))
have = set(s["prop"] for s in vp.parse_specs())
props = [json.loads(l)["id"] for l in open(os.path.join(vp.VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    n = NOTES.get(p, {})
    if p in have and not n.get("na"):
        checks.append(dict(property=p, quick_cmd="python3 /verif/check.py %s --tier quick" % p, thorough_cmd="python3 /verif/check.py %s --tier thorough" % p, evidence_file="evidence/%s.json" % p,
                           technique="contract-based deductive verification: contracts executed symbolically over the LLVM IR of the current sources, obligations discharged by exact normalisation and z3, refutations replayed on the compiled code",
                           level="proof", level_note=n.get("note", "")))
    else: na.append(dict(property=p, reason=n.get("na", "no contract built yet")))
json.dump(dict(version=1, setup_cmd="python3 /verif/tools/setup.py", checks=checks, not_applicable=na,
               notes="See DESIGN.md. No hooks in /repo; the only commits there are fix: commits. known_findings.json lists repaired defects and recorded findings."), open(os.path.join(vp.VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
