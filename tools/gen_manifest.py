"""Writes MANIFEST.json from the harness modules present."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(HERE, 'harness', i.lower() + '.py')
    if i in NA or not os.path.exists(f):
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
        continue
    ns = {}
    for line in ('BOUNDS', ):
        pass
    checks.append({
        'property': i, 'quick_cmd': 'checks/run.sh %s --tier quick' % i,
        'thorough_cmd': 'checks/run.sh %s --tier thorough' % i,
        'technique': 'symbolic execution of the Python source (numpy layer replaced by symbolic arrays, values as '
                     'Laurent polynomials), SMT (z3) decision of every claim and branch, replay on the real code',
        'level': 'model_checking',
        'level_note': 'Every value within the stated bounds, all paths; bounds, functions encoded and solver '
                      'counts are in the evidence file.'})
m = {'version': 1, 'setup_cmd': 'checks/setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
