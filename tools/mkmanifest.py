#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED: id -> level note; everything else is not applicable with a reason."""
import json
GEN = ("Every obligation of the functions under contract (listed per run in the evidence file) is generated from /repo's current source and discharged by z3/cvc5, "
       "for all inputs and all iterations; callers are checked against callee contracts. Trusted: the generator (govc), the solvers, the contracts marked trusted in the evidence. ")
CLAIMED = {}
def claim(i, note): CLAIMED[i] = GEN + note
exec(open('/verif/tools/claims.py').read())
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks = [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
           "technique": "contract-based deductive verification (Go condition generator over go/types AST, z3/cvc5)", "level": "proof", "level_note": CLAIMED[p["id"]]}
          for p in props if p["id"] in CLAIMED]
na = [{"property": p["id"], "reason": NA.get(p["id"], "contracts for this part are not written yet")} for p in props if p["id"] not in CLAIMED]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks: contracts live in /verif/contracts and the code is read as it is", "source_commits": []},
           "checks": checks, "not_applicable": na}, open('/verif/MANIFEST.json', 'w'), indent=1)
