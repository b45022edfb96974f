"""Rewrites the seeded-bug table of DESIGN.md.

usage: seeded_table.py [plant outputs...]: merges outputs of tools/plant.py into
tools/seeded_results.json, then regenerates the table between the markers.
"""
import json
import os
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rp = os.path.join(here, 'tools', 'seeded_results.json')
res = json.load(open(rp)) if os.path.exists(rp) else {}
for f in sys.argv[1:]:
  for l in open(f):
    if not l.startswith('{'):
      continue
    d = json.loads(l)
    if 'check' in d:
      old = res.get(d['id'], {})
      first = old.get('first', d['caught'])
      res[d['id']] = dict(caught=d['caught'], first=first, why=(d['why'] or [''])[0].strip()[:110])
sd = os.path.join(here, 'seeded')
res = {k: v for k, v in res.items() if os.path.isdir(os.path.join(sd, k))}
json.dump(res, open(rp, 'w'), indent=1, sort_keys=True)
rows = ['| bug | needs | caught by | first run |', '|-----|-------|-----------|-----------|']
for k in sorted(os.listdir(sd)):
  p = os.path.join(sd, k, 'meta.json')
  if not os.path.exists(p):
    continue
  m = json.load(open(p))
  r = res.get(k)
  law = r['why'].removeprefix('law ').split(':')[0] if r else ''
  got = f"{m['property']} ({law})" if r and r['caught'] else ('**missed**' if r else '?')
  rows.append(f"| {k} | {m['needs']} | {got} | {'' if not r else 'caught' if r['first'] else 'missed, then strengthened'} |")
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- seeded:begin -->', '<!-- seeded:end -->'
if a in s:
  s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(rows) + '\n' + s[s.index(b):]
  open(p, 'w').write(s)
print(len(rows) - 2, 'bugs;', sum(v['caught'] for v in res.values()), 'caught')
