#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props import P, NA
with open(V + '/properties.jsonl', 'w') as f:
    for p in P + NA:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p.get('over', ['inputs']), text=p['q']), why_tests_cant=p['why'],
          anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p.get('obs', []), hook_needed=None))) + '\n')
M = dict(version=1, setup_cmd='make -s -C engine', checks=[dict(property=p['id'], quick_cmd='python3 run.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 run.py ' + p['id'],
    technique=p.get('tech', 'symbolic execution of the LLVM IR of the real headers, assertions decided by z3, counterexamples replayed natively'), level='model_checking', level_note=p['note']) for p in P if os.path.exists(f"{V}/harness/{p['id']}.cpp") or any(x.startswith(p['id'] + '_') for x in os.listdir(V + '/harness'))],
    not_applicable=[dict(property=p['id'], reason=p['na']) for p in NA],
    notes='No hooks in /repo: harnesses under harness/ include /repo/include and use the public API. The checks interpret the LLVM IR of the current headers (engine/), see DESIGN.md.')
done = {c['property'] for c in M['checks']}
for p in P:
    if p['id'] not in done: M['not_applicable'].append(dict(property=p['id'], reason='no check yet'))
json.dump(M, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'claimed', len(NA), 'not applicable')
