#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from the table of claims."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
claims = {}
exec(open(V + "/tools/claims.py").read())
hooks = {"guard": "verif", "enable": "none needed: the contracts and the bounded checks live in /verif and are laid over the packages at run time", "source_commits": []}
harness = json.load(open(V + "/harness/harness.json"))
checks = []
for i in ids:
    if i in claims:
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py " + i,
            "thorough_cmd": "python3 tools/check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "contracts on the real functions, obligations generated from go/ssa and discharged by z3/cvc5" if harness.get(i, {}).get("level", "proof") == "proof" else "bounded check of the real code against the property's own definition; contracts only on parts of it",
            "level": harness.get(i, {}).get("level", "proof"),
            "level_note": claims[i],
        })
json.dump({
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": hooks,
    "checks": checks,
    "not_applicable": [{"property": i, "reason": not_applicable.get(i, "contracts not written yet")} for i in ids if i not in claims],
    "notes": "See DESIGN.md. Each check regenerates every obligation from /repo's working tree, then runs the bounded stand-in named in its evidence for what the proof leaves outside. known-findings.json lists recorded and fixed defects.",
}, open(V + "/MANIFEST.json", "w"), indent=1)
