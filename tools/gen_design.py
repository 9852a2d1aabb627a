"""Writes DESIGN.md: hand-written text below, bounds from the harnesses, cost from the evidence, planted changes."""
import glob
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

HEAD = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(HERE, 'tools', 'design_tail.md')).read()
TEXT = {}
key = None
for line in open(os.path.join(HERE, 'tools', 'design_props.md')):
    if line.startswith('## '):
        key = line[3:].strip()
        TEXT[key] = ''
    elif key:
        TEXT[key] += line

out = [HEAD]
costs = json.load(open(os.path.join(HERE, 'tools', 'costs.json')))
out.append('\n## 4. The properties and how each is decided\n')
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    h = importlib.import_module('harness.' + i.lower())
    out.append('\n### %s %s\n\n' % (i, p['title']))
    out.append(TEXT[i].strip() + '\n\n')
    out.append('*Bounds:* %s.\n' % (h.BOUNDS + importlib.import_module('harness.long').note(i)))
    if getattr(h, 'ASSUMPTIONS', None):
        out.append('*Assumes:* %s.\n' % h.ASSUMPTIONS)
    if getattr(h, 'OUTSIDE', None):
        out.append('*Outside:* %s.\n' % h.OUTSIDE)
    if i in costs:
        c = costs[i]
        out.append('*Cost (quick, 8 cores):* %(cases)d cases, %(paths)d paths, %(queries)d solver queries, %(wall).0f s.\n' % c)
out.append('\n' + TAIL)
res = json.load(open(os.path.join(HERE, 'tools', 'planted.json')))
out.append('\n| change | property | what it breaks | found |\n|---|---|---|---|\n')
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
    m = json.load(open(d + '/meta.json'))
    n = os.path.basename(d)
    out.append('| %s | %s | %s | %s |\n' % (n, m['property'], m['what_it_breaks'].replace('|', '/'), res.get(n, '?')))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(''.join(out))
