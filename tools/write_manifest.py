"""Writes MANIFEST.json from properties.jsonl and the registered property classes."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import env
env.load()
from sim import registry

root = env.VERIF
PY = '/opt/venv/bin/python'
checks, na = [], []
for line in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(line)
    P = registry.PROPS.get(p['id'])
    if P is None:
        na.append(dict(property=p['id'], reason='check not built yet'))
        continue
    checks.append(dict(property=p['id'], quick_cmd='%s check.py %s' % (PY, p['id']), thorough_cmd='%s check.py %s --thorough' % (PY, p['id']),
                       evidence_file='evidence/%s.json' % p['id'], technique=P.technique, level='exploration', level_note=P.level_note))
m = dict(version=1, setup_cmd='%s -c "import sys; sys.path.insert(0, \'.\'); from sim import env; env.load(); print(\'ok\')"' % PY,
         checks=checks, not_applicable=na,
         notes='No hooks in /repo: every seam (random generator, files, clock, directory listing, user callables, thread switches) is owned from outside, '
               'by patching the standard library in the simulating process or with the objects handed to the library. '
               'Replay a failure with: %s check.py --replay FILE' % PY)
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
