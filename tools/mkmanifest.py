#!/usr/bin/env python3
"""MANIFEST.json from checks.json (claimed) and properties.jsonl (all)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(V + "/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/not_applicable.json"))
checks, nal = [], []
for p in props:
    i = p["id"]
    if i in cfg:
        c = cfg[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": c.get("technique", "contract-based deductive verification (own VC generator over go/ssa, z3/cvc5)"),
                       "level": c.get("level", "proof"), "level_note": c["level_note"],
                       "evidence_file": "evidence/%s.json" % i})
    else:
        nal.append({"property": i, "reason": na.get(i, "not yet brought under contract")})
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": nal,
     "notes": "No hooks in /repo: contracts live in /verif/contracts, keyed by function and loop ordinal; the verifier reads /repo's sources through go/ssa on every run. Commits in /repo are only fix: commits (known_findings.txt)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(nal), "not")
