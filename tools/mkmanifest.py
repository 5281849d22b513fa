"""Regenerates MANIFEST.json from properties.jsonl and the checks that exist (python3 tools/mkmanifest.py)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'runtime monitoring: '
checks, na = [], []
for ln in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(ln)['id']
    f = os.path.join(HERE, 'harness', 'checks', p.lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': p, 'reason': 'check not built yet'})
        continue
    src = open(f).read()
    if 'REGISTER = False' in src:
        na.append({'property': p, 'reason': 'check not finished yet'})
        continue
    doc = re.match(r'"""(.*?)"""', src, re.S).group(1)
    parts = ' '.join(doc.split()).split('Monitor: ')
    mon = parts[1] if len(parts) > 1 else parts[0]
    checks.append({
        'property': p,
        'quick_cmd': f'python3 -m harness.run {p}',
        'thorough_cmd': f'VERIF_TIER=thorough python3 -m harness.run {p}',
        'evidence_file': f'evidence/{p}.json',
        'technique': TECH + 'the real library runs on generated workloads while a monitor compares its observable behaviour with an independent reference model',
        'level': 'exploration',
        'level_note': 'Held on the executions observed (counts in the evidence file), nothing more. Monitor: ' + mon +
                      ' Trusts: the reference reader/model and generators in harness/, CPython.',
    })
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every monitor observes the public functions from outside. A replay file names the failing case; '
              'python3 -m harness.run CNN --replay FILE runs it again.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
