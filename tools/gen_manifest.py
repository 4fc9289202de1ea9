"""MANIFEST.json from properties.jsonl, levels.json and the contracts present."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
lev = json.load(open(os.path.join(H, 'levels.json')))
checks, na = [], []
for p in props:
    i = p['id']
    d = lev.get(i, {})
    if os.path.exists(os.path.join(H, 'oracles', i + '.py')) and i in lev and not d.get('na'):
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % i,
                           technique=d.get('technique', 'contract-based deductive verification: VCs generated from the real code by symbolic execution with loop summaries, discharged by normal forms, z3 and cvc5'),
                           level=d.get('level', 'proof'), level_note=d['note']))
    else:
        na.append(dict(property=i, reason=d.get('na', 'no check built yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='No hooks: /repo is verified as it is, the transformer works on its current source on every run. known_findings.txt lists findings and repairs.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
