"""Mutation campaign: which small source changes do the checks miss?

usage: mutate.py OUT.jsonl --n 300 --seed 1 --jobs 4 [--files substr,substr]
Every mutant is written to a scratch copy of /repo; the checks mapped to its
file run fail-fast against the copy.  Survivors then face the stable tests.
Not part of any registered check.
"""
import argparse
import ast
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import plant  # noqa: E402

MAP = {
    'datatypes/roadgraph.py': 'C12 C11 C10 C27 C28',
    'datatypes/object_state.py': 'C27 C10 C25 C24 C11 C02 C18',
    'datatypes/simulator_state.py': 'C29 C27 C04 C01 C25 C24 C11',
    'datatypes/route.py': 'C10 C27 C11 C24 C14 C28',
    'datatypes/operations.py': 'C27 C02 C01 C11 C04 C28',
    'datatypes/traffic_lights.py': 'C27 C11 C24 C10 C30',
    'datatypes/observation.py': 'C11 C10 C12 C28',
    'datatypes/action.py': 'C27 C02 C07 C05 C28',
    'datatypes/array.py': 'C27 C24 C28',
    'agents/sim_agent.py': 'C22 C23 C18 C28',
    'agents/actor_core.py': 'C23 C19 C28',
    'agents/agent_builder.py': 'C23 C22 C17 C18',
    'agents/expert.py': 'C23 C06 C28',
    'agents/constant_speed.py': 'C23 C28',
    'agents/waypoint_following_agent.py': 'C22 C28',
    'config.py': 'C17 C26 C11 C18 C24',
    'metrics/metric_factory.py': 'C17 C16 C28',
    'metrics/roadgraph.py': 'C13 C14 C28',
    'metrics/route.py': 'C14 C28',
    'metrics/overlap.py': 'C09 C28',
    'metrics/imitation.py': 'C15 C28',
    'metrics/comfort.py': 'C15 C28',
    'metrics/abstract_metric.py': 'C17 C15 C27',
    'dynamics/delta.py': 'C05 C06 C07 C28',
    'dynamics/discretizer.py': 'C08 C07 C28',
    'dynamics/state_dynamics.py': 'C05 C06 C07 C28',
    'dynamics/bicycle_model.py': 'C05 C06 C07 C15 C28',
    'dynamics/abstract_dynamics.py': 'C05 C02 C03 C01 C06 C18 C28',
    'rewards/linear_combination_reward.py': 'C16 C17 C28',
    'rewards/abstract_reward_function.py': 'C16',
    'visualization/viz.py': 'C30', 'visualization/color.py': 'C30',
    'visualization/utils.py': 'C30',
    'env/base_environment.py': 'C04 C01 C16 C02 C03 C17 C29 C20 C28 C07',
    'env/rollout.py': 'C19 C29',
    'env/planning_agent_environment.py': 'C18 C03 C29 C04 C11 C01 C28 C16',
    'env/wrappers/dm_env_wrapper.py': 'C20', 'env/wrappers/brax_wrapper.py': 'C21',
    'dataloader/womd_utils.py': 'C25 C24', 'dataloader/dataloader_utils.py': 'C26 C24',
    'dataloader/womd_dataloader.py': 'C26 C24', 'dataloader/womd_factories.py': 'C24 C26 C25',
    'utils/geometry.py': 'C09 C10 C27 C28',
}

SWAP = {'logical_and': 'logical_or', 'minimum': 'maximum', 'cos': 'sin', 'any': 'all',
        'argmin': 'argmax', 'min': 'max', 'sim_trajectory': 'log_trajectory',
        'vel_x': 'vel_y', 'length': 'width', 'floor': 'ceil', 'zeros': 'ones',
        'zeros_like': 'ones_like', 'x': 'y', 'top_k': 'approx_min_k',
        'num_objects': 'num_timesteps', 'is_sdc': 'is_valid', 'bbox_corners': 'xy',
        'rad2deg': 'deg2rad', 'hstack': 'vstack', 'remaining_timesteps': 'timestep'}
SWAP.update({v: k for k, v in list(SWAP.items())})
SKIPKW = {'name', 'default_value', 'precision', 'alpha', 'ms', 'zorder', 'dtype', 'out_axes', 'unroll'}


class Mut(ast.NodeVisitor):

  def __init__(self, src, name):
    self.name = name
    self.src = src
    self.lines = src.split('\n')
    self.off = [0]
    for l in self.lines:
      self.off.append(self.off[-1] + len(l.encode()) + 1)
    self.b = src.encode()
    self.out = []
    self.skip = 0

  def span(self, n):
    return (self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset)

  def txt(self, n):
    a, e = self.span(n)
    return self.b[a:e].decode()

  def add(self, n, new, kind):
    a, e = self.span(n)
    old = self.b[a:e].decode()
    if old == new:
      return
    self.out.append((n.lineno, kind, f'{old[:70]!r} -> {new[:70]!r}', a, e, new))

  def between(self, l, r, new, kind, n):
    a, e = self.span(l)[1], self.span(r)[0]
    mid = self.b[a:e].decode()
    return a, e, mid

  def visit_Compare(self, n):
    if len(n.ops) == 1:
      m = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='],
           ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'],
           ast.In: ['not in'], ast.NotIn: ['in']}.get(type(n.ops[0]), [])
      for o in m:
        self.add(n, f'({self.txt(n.left)} {o} {self.txt(n.comparators[0])})', 'cmp')
    self.generic_visit(n)

  def visit_BinOp(self, n):
    m = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.BitAnd: '|', ast.BitOr: '&',
         ast.FloorDiv: '*', ast.Mod: '//', ast.Pow: '*'}.get(type(n.op))
    if m and not (isinstance(n.left, (ast.JoinedStr, ast.Constant)) and isinstance(getattr(n.left, 'value', None), str)):
      self.add(n, f'(({self.txt(n.left)}) {m} ({self.txt(n.right)}))', 'bin')
      if isinstance(n.op, (ast.BitAnd, ast.BitOr, ast.Mult)):
        self.add(n, f'({self.txt(n.left)})', 'binL')
        self.add(n, f'({self.txt(n.right)})', 'binR')
    self.generic_visit(n)

  def visit_BoolOp(self, n):
    m = ' or ' if isinstance(n.op, ast.And) else ' and '
    self.add(n, '(' + m.join(f'({self.txt(v)})' for v in n.values) + ')', 'bool')
    for v in n.values:
      self.add(n, '(' + self.txt(v) + ')', 'bool1')
    self.generic_visit(n)

  def visit_UnaryOp(self, n):
    if not (isinstance(n.operand, ast.Constant) and isinstance(n.op, ast.USub) and False):
      self.add(n, f'({self.txt(n.operand)})', 'unary')
    self.generic_visit(n)

  def visit_Constant(self, n):
    v = n.value
    if v is True or v is False:
      self.add(n, str(not v), 'bool_const')
    elif isinstance(v, int):
      self.add(n, str(v + 1), 'int')
      if v > 0:
        self.add(n, str(v - 1), 'int')
    elif isinstance(v, float):
      self.add(n, repr(v * 1.5 if v else 1.0), 'float')

  def visit_Attribute(self, n):
    if n.attr in SWAP:
      self.add(n, f'{self.txt(n.value)}.{SWAP[n.attr]}', 'attr')
    self.generic_visit(n)

  def visit_Call(self, n):
    f = n.func
    name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
    if name.startswith('assert_') or name in ('warning', 'info', 'ValueError', 'NotImplementedError', 'cast', 'isinstance', 'EpisodeAlreadyDoneError', 'TypeError', 'debug', 'assert_equal_shape', 'assert_shape', 'assert_equal_shape_prefix'):
      return
    if name == 'where' and len(n.args) == 3:
      c, a, b = [self.txt(x) for x in n.args]
      self.add(n, f'{self.txt(f)}({c}, {b}, {a})', 'where')
      self.add(n, f'({a})', 'whereA')
      self.add(n, f'({b})', 'whereB')
    elif len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
      rest = [', ' + self.txt(k.value) if False else (f', {k.arg}={self.txt(k.value)}' if k.arg else f', **{self.txt(k.value)}') for k in n.keywords]
      self.add(n, f'{self.txt(f)}({self.txt(n.args[1])}, {self.txt(n.args[0])}{"".join(rest)})', 'swapargs')
    if len(n.args) == 1 and not n.keywords and name not in ('len', 'range', 'super', 'int', 'float'):
      self.add(n, f'({self.txt(n.args[0])})', 'unwrap')
    for i, k in enumerate(n.keywords):
      if k.arg is None or k.arg in SKIPKW:
        continue
      parts = [self.txt(a) for a in n.args] + [
          (f'{q.arg}={self.txt(q.value)}' if q.arg else f'**{self.txt(q.value)}')
          for j, q in enumerate(n.keywords) if j != i]
      self.add(n, f'{self.txt(f)}({", ".join(parts)})', f'dropkw:{k.arg}')
    self.generic_visit(n)

  def visit_If(self, n):
    if all(isinstance(x, ast.Raise) for x in n.body) and 'config' not in self.name:
      return
    self.add(n.test, 'True', 'ifT')
    self.add(n.test, 'False', 'ifF')
    self.generic_visit(n)

  def visit_IfExp(self, n):
    self.add(n, f'({self.txt(n.body)})', 'ifexpT')
    self.add(n, f'({self.txt(n.orelse)})', 'ifexpF')
    self.generic_visit(n)

  def visit_Raise(self, n):
    self.add(n, 'pass', 'raise')

  def visit_Assert(self, n):
    return

  def visit_Expr(self, n):
    if isinstance(n.value, ast.Constant) or '.assert_' in self.txt(n)[:14]:
      return
    if isinstance(n.value, ast.Call):
      self.add(n, 'pass', 'stmt')
    self.generic_visit(n)

  def visit_AugAssign(self, n):
    m = {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '/='}.get(type(n.op))
    if m:
      self.add(n, f'{self.txt(n.target)} {m} {self.txt(n.value)}', 'aug')
    self.add(n, 'pass', 'stmt')
    self.generic_visit(n)

  def visit_Assign(self, n):
    if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
      t = n.targets[0].id
      names = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
      if t in names:
        self.add(n, 'pass', 'stmt')
    self.generic_visit(n)

  def visit_FunctionDef(self, n):
    if n.name in ('__repr__',):
      return
    for s in n.body:
      self.visit(s)
    for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
      self.visit(d)

  def visit_AnnAssign(self, n):
    if n.value is not None:
      self.visit(n.value)

  def visit_ImportFrom(self, n):
    pass

  visit_Import = visit_ImportFrom


def mutants():
  res = []
  for f in MAP:
    if 'color' in f:
      continue
    src = open(os.path.join('/repo/waymax', f)).read()
    m = Mut(src, f)
    m.visit(ast.parse(src))
    seen = set()
    for line, kind, desc, a, e, new in m.out:
      out = m.b[:a] + new.encode() + m.b[e:]
      if out in seen:
        continue
      seen.add(out)
      try:
        compile(out, f, 'exec')
      except SyntaxError:
        continue
      res.append(dict(file=f, line=line, kind=kind, desc=desc, src=out.decode()))
  return res


def sh(cmd, env, timeout, cwd=HERE):
  p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
  try:
    o, _ = p.communicate(timeout=timeout)
    return p.returncode, o
  except subprocess.TimeoutExpired:
    import signal
    os.killpg(p.pid, signal.SIGKILL)
    p.communicate()
    return 'timeout', ''


def worker(q, out, lock, args, k):
  tmp = tempfile.mkdtemp(prefix=f'mut{k}_', dir='/tmp')
  copy = os.path.join(tmp, 'repo')
  subprocess.run(['cp', '-a', '/repo', copy], check=True)
  env = dict(os.environ, VERIF_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick', VERIF_FAILFAST='1',
             VERIF_OUTDIR=tmp, VERIF_SCRATCH=tmp)
  try:
    while True:
      try:
        m = q.get_nowait()
      except queue.Empty:
        return
      path = os.path.join(copy, 'waymax', m['file'])
      orig = open(path).read()
      open(path, 'w').write(m['src'])
      t0 = time.time()
      res = {k: v for k, v in m.items() if k != 'src'}
      res['killed'] = None
      try:
        rc, o = sh(['/opt/venv/bin/python', '-c', 'import waymax.env, waymax.agents, waymax.dataloader, waymax.visualization'], dict(env, PYTHONPATH=copy, JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1'), 120)
        if rc != 0:
          res['killed'] = 'import'
        else:
          for c in [c for c in MAP[m['file']].split() if c not in args.skip.split(',')]:
            rc, o = sh([os.path.join(HERE, 'check.sh'), c, 'quick'], env, 600)
            if rc == 1 and f'VIOLATION property={c}' in o:
              res['killed'] = c
              res['why'] = [l for l in o.splitlines() if l.startswith('  law')][0][:200]
              break
            if rc != 0:
              res.setdefault('odd', []).append((c, rc, o[-400:]))
          if res['killed'] is None and not args.notests:
            res['tests'] = plant.stable_ok(copy, tmp)[:3]
      finally:
        open(path, 'w').write(orig)
      res['t'] = round(time.time() - t0)
      with lock:
        with open(out, 'a') as f:
          f.write(json.dumps(res) + '\n')
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('out')
  ap.add_argument('--n', type=int, default=100)
  ap.add_argument('--seed', type=int, default=1)
  ap.add_argument('--jobs', type=int, default=4)
  ap.add_argument('--files', default='')
  ap.add_argument('--perfile', type=int, default=0)
  ap.add_argument('--notests', action='store_true')
  ap.add_argument('--skip', default='C28')
  ap.add_argument('--list', action='store_true')
  ap.add_argument('--redo', default='', help='re-run the survivors of an earlier output')
  args = ap.parse_args()
  ms = mutants()
  if args.files:
    ms = [m for m in ms if any(s in m['file'] for s in args.files.split(','))]
  if args.list:
    from collections import Counter
    print(len(ms), Counter(m['file'] for m in ms).most_common())
    return
  done = set()
  for f in [args.out]:
    if os.path.exists(f):
      done = {(r['file'], r['line'], r['kind'], r['desc']) for r in map(json.loads, open(f))}
  if args.redo:
    keep = {(r['file'], r['line'], r['kind'], r['desc']) for r in map(json.loads, open(args.redo)) if r['killed'] is None and not r.get('tests')}
    ms = [m for m in ms if (m['file'], m['line'], m['kind'], m['desc']) in keep]
  random.Random(args.seed).shuffle(ms)
  if args.perfile:
    cnt = {}
    keep = []
    for m in ms:
      cnt[m['file']] = cnt.get(m['file'], 0) + 1
      if cnt[m['file']] <= args.perfile:
        keep.append(m)
    ms = keep
  ms = [m for m in ms[:args.n] if (m['file'], m['line'], m['kind'], m['desc']) not in done]
  q = queue.Queue()
  for m in ms:
    q.put(m)
  lock = threading.Lock()
  ts = [threading.Thread(target=worker, args=(q, args.out, lock, args, k)) for k in range(args.jobs)]
  for t in ts:
    t.start()
  for t in ts:
    t.join()


if __name__ == '__main__':
  main()
