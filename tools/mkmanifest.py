"""Write MANIFEST.json from properties.jsonl and checks.py."""
import json, sys, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
checks, na = [], []
for p in props:
    c = CHECKS.get(p['id'])
    if c is None:
        na.append({'property': p['id'], 'reason': 'the specification module for this property is not written yet'}); continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py %s quick' % p['id'], 'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
                   'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
