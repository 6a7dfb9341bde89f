#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from the list of claimed properties.
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
claimed = open('/verif/tools/claimed.txt').read().split()
notes = {}
for l in open('/verif/tools/notes.txt'):
    if ':' in l:
        k, v = l.split(':', 1)
        notes[k.strip()] = v.strip()
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "contract-based deductive verification of the real code (govc: symbolic execution of go/ssa against contracts, obligations discharged by z3/cvc5)",
            "level": "proof",
            "level_note": notes.get(i, "All obligations of the contracts for this property are discharged for all inputs and schedules, under the assumptions listed in the evidence."),
        })
    else:
        na.append({"property": i, "reason": notes.get(i, "no contract yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
