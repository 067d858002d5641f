"""Write MANIFEST.json from properties.jsonl and the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, 'properties.jsonl')) as f:
    PROPS = [json.loads(line) for line in f if line.strip()]
with open(os.path.join(ROOT, 'bin', 'levels.json')) as f:
    LEVELS = json.load(f)

BOUNDED = 'run-time contract checking of the real code on generated inputs (bounded stand-in)'
checks = []
for p in PROPS:
    lv = LEVELS.get(p['id'], {})
    cmd = '/opt/venv/bin/python bin/check.py {} '.format(p['id'])
    checks.append(dict(
        property=p['id'], quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough', evidence_file='evidence/{}.json'.format(p['id']),
        technique=lv.get('technique', BOUNDED), level=lv.get('level', 'exploration'),
        level_note=lv.get('note', 'Bounded: run-time contracts on generated inputs; nothing is proved yet.')
    ))
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(
        version=1, setup_cmd='/opt/venv/bin/python bin/setup.py', checks=checks, not_applicable=[],
        notes='No hooks in /repo are needed. Checks read the source of /repo and run it with /opt/venv/bin/python; z3 comes from /opt/veriftools/pyvenv.'
    ), f, indent=1)
    f.write('\n')
