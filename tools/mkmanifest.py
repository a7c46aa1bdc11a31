"""Writes MANIFEST.json from the plans and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import plans
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for d in props:
    p = d['id']
    if p not in plans.PLANS:
        na.append({'property': p, 'reason': 'not built yet'})
        continue
    level, tech, note = plans.ABOUT[p]
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p,
                   'thorough_cmd': 'python3 check.py %s thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p,
                   'technique': tech, 'level': level, 'level_note': note})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
     'not_applicable': na,
     'notes': 'TLA+ specification in spec/, bound to the code by recorded calls and '
              'histories judged by TLC and by behaviours generated by TLC and '
              'replayed; see DESIGN.md. No hooks in /repo.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
