"""Property-based-testing harness: laws, recorder, runner, evidence, replay.

A *law* is a predicate over a generated *case*.  A case is a plain dict of
JSON-able values and numpy arrays, produced by a Hypothesis strategy.  The body
of a law is called as body(case) and either returns a collection of labels (the
case is non-trivial when that collection is non-empty) or raises.

  * Violation                      -> the property is broken
  * exception with a frame in the  -> the code under test crashed on an input
    repository under test             it must accept: the property is broken
  * the oracle cannot read what    -> the code under test returned something of
    the code returned                 the wrong kind (None, a missing entry, a
                                      shape that does not fit): broken as well
  * any other exception            -> harness error (exit 2)
"""
import base64
import hashlib
import json
import os
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, REPO)
# Hypothesis is not in the repository's interpreter: append the tool venv LAST
# so every package of the repository's own environment wins.
for _p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
  if _p not in sys.path:
    sys.path.append(_p)

import numpy as np  # noqa: E402
import hypothesis  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
# Used by tools/mutate.py only: stop at the first failing law, do not shrink.
FAILFAST = bool(os.environ.get('VERIF_FAILFAST'))
OUTDIR = os.environ.get('VERIF_OUTDIR', VERIF)


class Violation(AssertionError):
  pass


class Inconclusive(Exception):
  """Raised inside a body to discard a case (counted separately)."""


def require(cond, *msg):
  if not bool(cond):
    raise Violation(' '.join(str(m) for m in msg))


def _fmt(a):
  return np.array2string(np.asarray(a), threshold=60, precision=8)


def eq(actual, expected, what, case_ctx=''):
  """Exact equality (NaN equal), shape and kind included."""
  a, b = np.asarray(actual), np.asarray(expected)
  if a.shape != b.shape:
    raise Violation(f'{what}: shape {a.shape} != expected {b.shape} {case_ctx}')
  if a.dtype.kind != b.dtype.kind and {a.dtype.kind, b.dtype.kind} - {'i', 'u'}:
    raise Violation(f'{what}: dtype {a.dtype} != expected {b.dtype} {case_ctx}')
  same = (a == b)
  if a.dtype.kind == 'f':
    same = same | (np.isnan(a) & np.isnan(b))
  if not np.all(same):
    i = tuple(int(v) for v in np.argwhere(~np.atleast_1d(same))[0])
    raise Violation(
        f'{what}: mismatch at {i}: got {np.atleast_1d(a)[i]!r} expected '
        f'{np.atleast_1d(b)[i]!r} {case_ctx}')


def close(actual, expected, what, atol=1e-4, rtol=1e-5, case_ctx=''):
  a = np.asarray(actual, dtype=np.float64)
  b = np.asarray(expected, dtype=np.float64)
  if a.shape != b.shape:
    raise Violation(f'{what}: shape {a.shape} != expected {b.shape} {case_ctx}')
  atol = np.broadcast_to(np.asarray(atol, np.float64), b.shape)
  with np.errstate(invalid='ignore'):
    ok = (np.abs(a - b) <= atol + rtol * np.abs(b)) | (a == b)
  ok = ok | (np.isnan(a) & np.isnan(b))
  if not np.all(ok):
    i = tuple(int(v) for v in np.argwhere(~np.atleast_1d(ok))[0])
    raise Violation(
        f'{what}: mismatch at {i}: got {np.atleast_1d(a)[i]!r} expected '
        f'{np.atleast_1d(b)[i]!r} {case_ctx}')


def tree_eq(a, b, what):
  import jax
  la, ta = jax.tree_util.tree_flatten_with_path(a)
  lb, tb = jax.tree_util.tree_flatten_with_path(b)
  if len(la) != len(lb):
    raise Violation(f'{what}: different number of leaves {len(la)} {len(lb)}')
  for (pa, x), (pb, y) in zip(la, lb):
    eq(x, y, f'{what}{jax.tree_util.keystr(pa)}')


def tree_close(a, b, what, atol=1e-4, rtol=1e-5):
  import jax
  la, _ = jax.tree_util.tree_flatten_with_path(a)
  lb, _ = jax.tree_util.tree_flatten_with_path(b)
  if len(la) != len(lb):
    raise Violation(f'{what}: different number of leaves {len(la)} {len(lb)}')
  for (pa, x), (pb, y) in zip(la, lb):
    name = f'{what}{jax.tree_util.keystr(pa)}'
    if np.asarray(y).dtype.kind == 'f':
      close(x, y, name, atol=atol, rtol=rtol)
    else:
      eq(x, y, name)


# ----------------------------------------------------------------- laws ------
class Law:

  def __init__(self, name, strategy, body, quick, thorough, rule, shrink_s):
    self.name, self.strategy, self.body = name, strategy, body
    self.n = {'quick': quick, 'thorough': thorough}
    self.rule = rule
    self.shrink_s = shrink_s


class Registry:
  """One per check module: collects the laws of a property."""

  def __init__(self, prop, rule, assumptions=()):
    self.prop, self.rule, self.assumptions = prop, rule, list(assumptions)
    self.laws = []
    self.findings = []  # (id, text, fn() -> bool still failing)

  def law(self, strategy, quick=200, thorough=None, name=None, rule='',
          shrink_s=60.0):
    def deco(body):
      self.laws.append(Law(name or body.__name__, strategy, body, quick,
                           thorough or quick * 12, rule, shrink_s))
      return body
    return deco

  def finding(self, fid):
    def deco(fn):
      self.findings.append((fid, fn))
      return fn
    return deco


# -------------------------------------------------------- serialisation ------
def enc(v):
  if isinstance(v, np.ndarray):
    return {'__nd__': v.tolist() if v.size <= 4000 and v.dtype.kind != 'S' else
            None, 'b64': base64.b64encode(np.ascontiguousarray(v).tobytes()).decode(),
            'dtype': str(v.dtype), 'shape': list(v.shape)}
  if isinstance(v, np.generic):
    return enc(np.asarray(v)) if v.dtype.kind == 'f' else v.item()
  if isinstance(v, dict):
    return {'__dict__': [[enc(k), enc(x)] for k, x in v.items()]}
  if isinstance(v, tuple):
    return {'__tuple__': [enc(x) for x in v]}
  if isinstance(v, list):
    return [enc(x) for x in v]
  if isinstance(v, bytes):
    return {'__bytes__': base64.b64encode(v).decode()}
  if v is None or isinstance(v, (bool, int, float, str)):
    return v
  raise TypeError(f'case value not serialisable: {type(v)}')


def dec(v):
  if isinstance(v, dict):
    if '__nd__' in v:
      return np.frombuffer(base64.b64decode(v['b64']),
                           dtype=v['dtype']).reshape(v['shape']).copy()
    if '__dict__' in v:
      return {dec(k): dec(x) for k, x in v['__dict__']}
    if '__tuple__' in v:
      return tuple(dec(x) for x in v['__tuple__'])
    if '__bytes__' in v:
      return base64.b64decode(v['__bytes__'])
  if isinstance(v, list):
    return [dec(x) for x in v]
  return v


def brief(v, depth=0):
  """Human-readable, bounded rendering of a case for evidence samples."""
  if isinstance(v, np.ndarray):
    if v.size <= 24:
      return np.round(v, 5).tolist() if v.dtype.kind == 'f' else v.tolist()
    flat = v.reshape(-1)[:8]
    flat = np.round(flat, 4).tolist() if v.dtype.kind == 'f' else flat.tolist()
    return f'{v.dtype}{list(v.shape)} head={flat}'
  if isinstance(v, np.generic):
    return v.item()
  if isinstance(v, dict):
    return {str(k): brief(x, depth + 1) for k, x in v.items()}
  if isinstance(v, (list, tuple)):
    if len(v) > 20:
      return [brief(x, depth + 1) for x in v[:20]] + ['...']
    return [brief(x, depth + 1) for x in v]
  if isinstance(v, bytes):
    return v[:32].hex()
  return v


def digest(case):
  h = hashlib.sha1()

  def up(v):
    if isinstance(v, np.ndarray):
      h.update(str(v.dtype).encode() + str(v.shape).encode())
      h.update(np.ascontiguousarray(v).tobytes())
    elif isinstance(v, dict):
      for k in v:
        h.update(str(k).encode())
        up(v[k])
    elif isinstance(v, (list, tuple)):
      h.update(b'[')
      for x in v:
        up(x)
      h.update(b']')
    else:
      h.update(repr(v).encode())
  up(case)
  return h.digest()[:10]


def from_repo(exc):
  tb = exc.__traceback__
  while tb is not None:
    f = tb.tb_frame.f_code.co_filename
    if f.startswith(os.path.join(REPO, 'waymax')):
      return True
    tb = tb.tb_next
  return False


def unreadable(exc):
  """The oracle tripped over a result (as opposed to calling the code wrongly)."""
  if any(t.__module__.startswith('tensorflow.') for t in type(exc).__mro__):
    return True  # the input pipeline failed while it ran
  if not isinstance(exc, (AttributeError, TypeError, ValueError, IndexError, KeyError)):
    return False
  text = str(exc)
  return not any(s in text for s in (
      'module ', 'type object', 'keyword argument', 'positional argument'))


def describe(exc):
  if isinstance(exc, Violation):
    return str(exc)
  if not from_repo(exc):
    f = traceback.extract_tb(exc.__traceback__)[-1]
    return (f'result cannot be read: {type(exc).__name__}: {str(exc)[:400]} '
            f'in {os.path.basename(f.filename)}:{f.lineno} ({f.line})')
  last = traceback.extract_tb(exc.__traceback__)
  where = [f'{os.path.relpath(f.filename, REPO)}:{f.lineno}' for f in last
           if f.filename.startswith(os.path.join(REPO, 'waymax'))]
  return (f'code under test raised {type(exc).__name__}: {str(exc)[:400]} '
          f'at {where[-1:]}')


class Out:
  def __init__(self):
    self.evals = 0
    self.discarded = 0
    self.skipped_budget = 0
    self.nontrivial = set()
    self.labels = {}
    self.samples = []
    self.fail = None  # (case, message)
    self.fail_count = 0
    self.harness_error = None


def _is_violation(e):
  if isinstance(e, (MemoryError, KeyboardInterrupt, SystemExit)):
    return False
  return isinstance(e, Violation) or from_repo(e) or unreadable(e)


def run_law(law, prop, tier, deadline):
  out = Out()
  t_first_fail = [None]

  def execute(case):
    if out.harness_error is not None:
      return
    now = time.monotonic()
    if t_first_fail[0] is None and now > deadline:
      out.skipped_budget += 1
      return
    if t_first_fail[0] is not None and now > t_first_fail[0] + law.shrink_s:
      return  # stop shrinking: behave as passing from here on
    try:
      labels = law.body(case)
    except Inconclusive:
      out.discarded += 1
      return
    except BaseException as e:  # pylint: disable=broad-except
      if isinstance(e, hypothesis.errors.HypothesisException) or isinstance(
          e, (KeyboardInterrupt, SystemExit)):
        raise
      if _is_violation(e):
        out.fail_count += 1
        out.fail = (case, describe(e))
        if t_first_fail[0] is None:
          t_first_fail[0] = time.monotonic()
        raise Violation(describe(e)[:200]) from None
      out.harness_error = ''.join(traceback.format_exception(e))
      return
    out.evals += 1
    if isinstance(labels, str):
      labels = [labels]
    labels = list(labels or ())
    for lab in labels:
      out.labels[lab] = out.labels.get(lab, 0) + 1
    if labels:
      d = digest(case)
      if d not in out.nontrivial:
        out.nontrivial.add(d)
        if len(out.samples) < 2 or (len(out.nontrivial) in (50, 500)):
          out.samples.append({'law': law.name, 'labels': labels,
                              'case': brief(case)})

  lseed = int(hashlib.sha1(f'{SEED}/{prop}/{law.name}'.encode()).hexdigest()[:8], 16)
  phases = (hypothesis.Phase.generate, hypothesis.Phase.shrink)
  if FAILFAST:
    phases = phases[:1]
  test = hypothesis.given(law.strategy)(execute)
  test = hypothesis.seed(lseed)(test)
  test = hypothesis.settings(
      max_examples=law.n[tier], deadline=None, database=None, phases=phases,
      report_multiple_bugs=False, print_blob=False,
      suppress_health_check=list(hypothesis.HealthCheck))(test)
  try:
    test()
  except BaseException as e:  # pylint: disable=broad-except
    if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
      raise
    if out.fail is None and out.harness_error is None:
      out.harness_error = ''.join(traceback.format_exception(e))
  return out


def _known():
  path = os.path.join(VERIF, 'known_findings.json')
  if not os.path.exists(path):
    return []
  with open(path) as f:
    return json.load(f)['findings']


def load(prop):
  import importlib
  return importlib.import_module('checks.' + prop.lower()).R


def replay(path):
  with open(path) as f:
    d = json.load(f)
  reg = load(d['property'])
  law = [l for l in reg.laws if l.name == d['law']][0]
  case = dec(d['case'])
  try:
    law.body(case)
  except BaseException as e:  # pylint: disable=broad-except
    if _is_violation(e):
      print('reproduced:', describe(e))
      print(f"VIOLATION property={d['property']} replay={path}")
      return 1
    raise
  print('not reproduced')
  return 0


def run(mod, prop, tier, only=None):
  t0 = time.monotonic()
  reg = mod.R
  assert reg.prop == prop, (reg.prop, prop)
  total = {'quick': 420.0, 'thorough': 3 * 3600.0}[tier]
  known = {f['id']: f for f in _known() if f.get('property') == prop}
  evals = discarded = skipped = 0
  distinct = 0
  per_law, samples = {}, []
  viol, errors = [], []
  for fid, fn in reg.findings:
    k = known.get(fid)
    if k is None or k.get('status') != 'finding':
      continue
    if fn():
      print(f"KNOWN-FINDING: property={prop} {k['what']}")
  laws = [l for l in reg.laws if only is None or l.name == only]
  for law in laws:
    lt = time.monotonic()
    out = run_law(law, prop, tier, t0 + total)
    evals += out.evals
    discarded += out.discarded
    skipped += out.skipped_budget
    distinct += len(out.nontrivial)
    samples += out.samples
    per_law[law.name] = {
        'evaluations': out.evals, 'distinct_nontrivial': len(out.nontrivial),
        'discarded': out.discarded, 'budget_skipped': out.skipped_budget,
        'labels': dict(sorted(out.labels.items())),
        'wall_s': round(time.monotonic() - lt, 2), 'rule': law.rule}
    if out.harness_error is not None:
      errors.append((law.name, out.harness_error))
      continue
    if out.fail is not None:
      case, msg = out.fail
      # Deciding replay: plain call, no Hypothesis.
      again = None
      for _ in range(5):
        try:
          law.body(case)
        except BaseException as e:  # pylint: disable=broad-except
          if _is_violation(e):
            again = describe(e)
            break
          errors.append((law.name, ''.join(traceback.format_exception(e))))
          break
      if again is None:
        errors.append((law.name, 'failure did not replay: ' + msg))
        continue
      rdir = os.path.join(OUTDIR, 'replays')
      os.makedirs(rdir, exist_ok=True)
      path = os.path.join(rdir, f'{prop}-{law.name}-{digest(case).hex()}.json')
      with open(path, 'w') as f:
        json.dump({'property': prop, 'law': law.name, 'message': again,
                   'seed': SEED, 'brief': brief(case), 'case': enc(case)}, f)
      viol.append((law.name, path, again))
      if FAILFAST:
        break
  wall = time.monotonic() - t0
  ev = {
      'property': prop, 'tier': tier, 'seed': SEED, 'level': 'exploration',
      'coverage': {
          'evaluations': evals, 'distinct_nontrivial': distinct,
          'rule': reg.rule, 'samples': samples[:24] or [{'note': 'none'}],
          'discarded': discarded, 'budget_skipped': skipped, 'laws': per_law},
      'assumptions': reg.assumptions, 'wall_s': round(wall, 2),
      'violations': len(viol)}
  os.makedirs(os.path.join(OUTDIR, 'evidence'), exist_ok=True)
  with open(os.path.join(OUTDIR, 'evidence', f'{prop}.json'), 'w') as f:
    json.dump(ev, f, indent=1, default=str)
  for name, d in per_law.items():
    print(f"  {name}: {d['evaluations']} cases, {d['distinct_nontrivial']} "
          f"distinct non-trivial, {d['wall_s']}s {d['labels']}")
  for name, path, msg in viol:
    print(f'  law {name}: {msg[:600]}')
    print(f'VIOLATION property={prop} replay={path}')
  if viol:
    return 1
  if errors:
    for name, msg in errors:
      print(f'HARNESS-ERROR in law {name}: {msg[-3000:]}')
    return 2
  print(f'OK property={prop} tier={tier} seed={SEED} cases={evals} '
        f'distinct_nontrivial={distinct} wall={wall:.1f}s')
  return 0
