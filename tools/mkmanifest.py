"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
TECH = json.load(open(os.path.join(here, 'tools', 'technique.json')))
checks, na = [], []
for d in props:
  i = d['id']
  if os.path.exists(os.path.join(here, 'pbt', 'checks', i.lower() + '.py')):
    t = TECH.get(i, {})
    checks.append(dict(
        property=i, quick_cmd=f'./check.sh {i} quick',
        thorough_cmd=f'./check.sh {i} thorough',
        evidence_file=f'evidence/{i}.json',
        technique=t.get('technique', 'property-based testing (Hypothesis generators, shrinking) against a NumPy float64 reference model'),
        level='exploration',
        level_note=t.get('note', 'Random generated-input search with an explicit oracle; no exhaustiveness claimed. Trusts the reference model in /verif/pbt and JAX/NumPy.')))
  else:
    na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
