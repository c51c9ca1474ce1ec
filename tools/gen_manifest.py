#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the check modules that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
have = set()
for f in sorted(os.listdir(os.path.join(V, 'checks'))):
    m = re.match(r'c(\d\d)\.py$', f)
    if not m:
        continue
    src = open(os.path.join(V, 'checks', f)).read()
    g = {}
    for name in ('LEVEL', 'TECHNIQUE', 'NOTE'):
        mm = re.search(r'^%s = (\(.*?\)|\'.*?\')\n' % name, src, re.S | re.M)
        g[name] = eval(mm.group(1)) if mm else None
    pid = 'C' + m.group(1)
    have.add(pid)
    checks.append(dict(property=pid, quick_cmd='./check %s --tier quick' % pid,
                       thorough_cmd='./check %s --tier thorough' % pid,
                       technique=g['TECHNIQUE'], level=g['LEVEL'], level_note=g['NOTE']))
NA = {}
na = []
for line in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if pid not in have:
        na.append(dict(property=pid, reason=NA.get(pid, 'check not built yet')))
man = dict(version=1, setup_cmd='/opt/venv/bin/python -B -m lib.build',
           hooks=dict(guard='none (no hooks: the checks drive the public interface of an unmodified build)',
                      enable='not needed', source_commits=[]),
           checks=checks, not_applicable=na)
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
