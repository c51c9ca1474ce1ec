#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(V, 'tools', 'caught.json')))
rows = []
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    c = caught.get(i) or ['not run']
    rows.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'], m['needs'], ' '.join(c)))
txt = ['<!-- plants -->', '| planted bug | what it breaks | what it needs | reported by |', '|---|---|---|---|'] + rows + ['<!-- /plants -->']
p = os.path.join(V, 'DESIGN.md')
d = open(p).read()
d = re.sub(r'<!-- plants -->.*<!-- /plants -->', lambda m: '\n'.join(txt), d, flags=re.S)
open(p, 'w').write(d)
print(len(rows), 'planted bugs')
