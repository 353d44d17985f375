#!/usr/bin/env python3
"""fills the per-property section and the table of planted changes of DESIGN.md (between the markers)"""
import json, os, re, sys, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props import P
from how import HOW, CAUGHT
out = []
for p in P:
    i = p['id']; d = {'BOUND': [], 'ASSUME': [], 'OUTSIDE': []}; n = 0
    for f in sorted(glob.glob(f'{V}/harness/{i}.cpp') + glob.glob(f'{V}/harness/{i}_?.cpp')):
        for l in open(f):
            m = re.match(r'// ?(BOUND|ASSUME|OUTSIDE): (.*)', l)
            if m and m[2].strip() not in d[m[1]]: d[m[1]].append(m[2].strip())
    out.append(f"### {i} {p['title']}\n\n{HOW[i]}\n\n- Why the tests cannot settle it: {p['why']}.\n" + ''.join(f"- {a}: {x}.\n" for k, a in (('BOUND', 'Bound'), ('ASSUME', 'Assumption'), ('OUTSIDE', 'Outside')) for x in d[k] if not (k == 'ASSUME' and x == 'none')))
t = '| planted change | what it needs | caught by |\n|---|---|---|\n'
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{s}/meta.json')); t += f"| {s} | {m['needs']} | {CAUGHT.get(s, m['property'])} |\n"
s = open(V + '/DESIGN.md').read()
def put(s, tag, body): a, b = f'<!-- {tag} -->', f'<!-- /{tag} -->'; return s[:s.index(a) + len(a)] + '\n' + body.rstrip() + '\n' + s[s.index(b):]
s = put(put(s, 'properties', '\n'.join(out)), 'planted', t); open(V + '/DESIGN.md', 'w').write(s)
