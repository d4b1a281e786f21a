"""Writes MANIFEST.json from the checks that exist."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'techniques.json')))
checks = []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
        continue
    src = open(os.path.join(ROOT, 'checks', i.lower() + '.py')).read()
    n = len(re.findall(r'^@?sub\(', src, re.M))
    checks.append(dict(
        property=i, quick_cmd='bash run.sh ' + i, thorough_cmd='bash run.sh ' + i,
        technique='property-based testing (Hypothesis): ' + NOTES.get(i, 'generated inputs against an independent reference oracle'),
        level='exploration',
        level_note='%d sub-checks over seeded generated cases; failures are shrunk to a minimal JSON case. '
                   'Decides the property on the generated cases only; counts and classes in the evidence file.' % n))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[],
         notes='Checks import /repo directly from its working tree; no hooks. VERIF_SEED seeds every case, VERIF_TIER '
               'selects the number of cases. `bash run.sh C01 --replay FILE` re-runs one recorded case.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
print(len(checks), 'checks')
