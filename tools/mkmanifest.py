#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and the harness directives."""
import json, os, re, sys, glob
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in glob.glob(root + '/harness/**/*.go', recursive=True):
    for m in re.finditer(r'^//vf:prop (.+)$', open(f).read(), re.M):
        have |= set(m.group(1).split())
with open(root + '/properties.jsonl', 'w') as o:
    for p in PROPS:
        q = dict(p); q.pop('note', None)
        o.write(json.dumps(q) + '\n')
checks = []
na = [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]
for p in PROPS:
    i = p['id']
    if i in NOT_APPLICABLE: continue
    if i not in have:
        print("no harness for", i, file=sys.stderr)
        na.append({"property": i, "reason": "harness not written yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "symbolic execution of the Go SSA of the real code, assertions decided by SMT (z3, sampled cross-checks with cvc5), counterexamples replayed natively",
        "level": "model_checking",
        "level_note": p.get('note') or "Holds for every input within the bounds listed in the evidence file, relative to the engine's documented stubs and the SSA semantics it implements; sampled passing paths and every counterexample are replayed on the compiled code. Bounds: see DESIGN.md.",
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Harnesses are overlaid on /repo's packages at load time; no hooks are committed to /repo. Replay a counterexample with: bin/gosym replay evidence/replay/<file>."}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
