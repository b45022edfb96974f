"""Confirms planted bugs: plant.py SPEC.py [ID...]

SPEC.py defines BUGS: dicts with id, property, edits [(file, old, new)], needs,
what_it_breaks, demo (Python source).  For each: applies the edits to a scratch
copy of /repo, writes /verif/seeded/<id>/, runs the stable tests and the demo
(with and without), then the property's quick check against the copy.
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, JAX_PLATFORMS='cpu', TF_CPP_MIN_LOG_LEVEL='3', MPLBACKEND='Agg',
           PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
ENV.pop('PYTHONPATH', None)
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# Exit 0 when the property holds for the demonstrated case, 1 when it is broken.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
'''
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, cwd, timeout=900, env=ENV):
  p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
  return p.returncode, p.stdout + p.stderr


def stable_ok(copy, tmp):
  x = os.path.join(tmp, 'junit.xml')
  sh([PY, '-m', 'pytest', '-q', '--tb=short', '-n', '3', '-p', 'no:cacheprovider', '--timeout=300',
      '--continue-on-collection-errors', '-o', 'python_files=*_test.py', '-o', 'junit_family=xunit2',
      '--junitxml=' + x, 'waymax'], copy)
  out = os.path.join(tmp, 'out.json')
  subprocess.run(['python3', '/opt/vp/results.py', out, 'junit:' + x], capture_output=True)
  d = json.load(open(out))
  return sorted(STABLE - set(d['passed']))


def run(b, check=True):
  tmp = f'/tmp/plant_{b["id"]}'
  shutil.rmtree(tmp, ignore_errors=True)
  os.makedirs(tmp)
  copy = os.path.join(tmp, 'repo')
  res = dict(id=b['id'], property=b['property'])
  try:
    subprocess.check_call(['cp', '-a', '/repo', copy])
    for f, old, new in b['edits']:
      p = os.path.join(copy, f)
      s = open(p).read()
      if s.count(old) != 1:
        return dict(res, error=f'{f}: pattern occurs {s.count(old)} times')
      open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', 'diff'], cwd=copy, text=True)
    d = os.path.join(HERE, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
    open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].strip() + '\n')
    if 'scene' in b['demo']:
      shutil.copy(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), 'util.py'), os.path.join(d, 'scene.py'))
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['what_it_breaks']),
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    rc0, o0 = sh(['bash', os.path.join(d, 'demo.sh')], '/repo')
    rc1, o1 = sh(['bash', os.path.join(d, 'demo.sh')], copy)
    res.update(demo_clean=rc0, demo_bug=rc1)
    if rc0 or not rc1:
      shutil.rmtree(d)
      return dict(res, error='demo', out=(o0 if rc0 else o1)[-1500:])
    res['demo_msg'] = o1.strip().splitlines()[-1][:200]
    broken = stable_ok(copy, tmp)
    if broken:
      shutil.rmtree(d)
      return dict(res, error='tests', broken=broken[:5])
    if check:
      res.update(check_one(b, copy))
    return res
  except Exception as e:  # report, keep going
    return dict(res, error=repr(e))
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


def check_one(b, copy):
  env = dict(ENV, VERIF_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick',
             VERIF_SCRATCH=os.path.dirname(copy))
  rc, o = sh([os.path.join(HERE, 'check.sh'), b['property'], 'quick'], HERE, env=env)
  lines = [l for l in o.splitlines() if 'VIOLATION' in l or l.startswith('  law')]
  return dict(check=rc, caught=rc == 1 and any(f'VIOLATION property={b["property"]}' in l for l in lines),
              why=[l[:220] for l in lines if l.startswith('  law')][:2], tail=o[-600:] if rc not in (0, 1) else '')


if __name__ == '__main__':
  spec = importlib.util.spec_from_file_location('spec', sys.argv[1])
  m = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(m)
  ids = sys.argv[2:]
  bugs = [b for b in m.BUGS if not ids or b['id'] in ids]
  with cf.ThreadPoolExecutor(3) as ex:
    for r in ex.map(run, bugs):
      print(json.dumps(r), flush=True)
