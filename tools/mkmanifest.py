#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of the checks which are claimed."""
import json
import os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
PY = '/opt/venv/bin/python'
CLAIMED = {}


def claim(pid, technique, note):
    CLAIMED[pid] = dict(property=pid, quick_cmd=f'{PY} harness/{pid.lower()}.py',
                        thorough_cmd=f'VERIF_TIER=thorough {PY} harness/{pid.lower()}.py',
                        evidence_file=f'evidence/{pid}.json', technique=technique, level='model_checking', level_note=note)


exec(open(os.path.join(ROOT, 'tools', 'claims.py')).read())

props = [json.loads(line)['id'] for line in open(os.path.join(ROOT, 'properties.jsonl'))]
manifest = dict(
    version=1,
    setup_cmd=f'{PY} tools/setup.py',
    checks=[CLAIMED[p] for p in props if p in CLAIMED],
    not_applicable=[dict(property=p, reason='The check of this property is not finished yet.') for p in props if p not in CLAIMED],
    notes='TLA+ specifications in spec/, checked by TLC; harness/ records and replays the real code from /repo. No hooks in /repo.',
)
json.dump(manifest, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
