"""Print the table of the planted bugs for DESIGN.md."""
import glob
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for path in glob.glob(os.path.join(VERIF, 'seeded', '*', 'meta.json')):
    with open(path) as f:
        meta = json.load(f)
    rows.append((meta['property'], os.path.basename(os.path.dirname(path)), meta['needs'], meta['what_it_breaks']))
print('| property and check | bug | needs | breaks |\n|---|---|---|---|')
for pid, bug, needs, breaks in sorted(rows):
    print(f'| {pid} | `{bug}` | {needs} | {breaks} |')
