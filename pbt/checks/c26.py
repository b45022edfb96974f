"""C26: the data pipeline delivers each record exactly once per pass."""
import collections
import os
# Two (virtual) devices, so that distributed loading has something to distribute.
if 'xla_force_host_platform_device_count' not in os.environ.get('XLA_FLAGS', ''):
  os.environ['XLA_FLAGS'] = (os.environ.get('XLA_FLAGS', '') + ' --xla_force_host_platform_device_count=2').strip()
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
import records
from harness import Registry, Violation, eq, require

R = Registry('C26', 'Random sets of TFRecord files (empty files included) written '
             'to a scratch directory, with random path names, shard counts, batch '
             'dims, repeats, seeds and buffer sizes; oracle: the multiset of '
             'written records. Non-trivial: more than one file or record.',
             ['with several batch dims and incomplete batches kept, sizes divide evenly',
              'incomplete batches are formed per loading shard'])


class Scratch:
  """A fresh directory holding one record file set."""

  def __init__(self, c):
    self.dir = tempfile.mkdtemp(prefix='c26_')
    self.c = c

  def __enter__(self):
    import tensorflow as tf
    sub = os.path.join(self.dir, self.c['dirname'])
    os.makedirs(sub, exist_ok=True)
    base = os.path.join(sub, self.c['base'])
    n = len(self.c['counts'])
    if self.c['sharded']:
      self.path = f'{base}@{n}'
      names = [f'{base}-{i:05d}-of-{n:05d}' for i in range(n)]
    else:
      self.path, names = base, [base]
    # Files that the pattern does not name must not be read.
    for decoy in (f'{base}-{n:05d}-of-{n:05d}', f'{base}-00000-of-{n + 1:05d}', base + '.bak'):
      with tf.io.TFRecordWriter(decoy) as w:
        w.write(b'999999')
    self.files = []
    for i, name in enumerate(names):
      ids = [1000 * (i + 1) + j for j in range(self.c['counts'][i])]
      self.files.append(ids)
      with tf.io.TFRecordWriter(name) as w:
        for k in ids:
          w.write(str(k).encode())
    return self

  def __exit__(self, *a):
    shutil.rmtree(self.dir, ignore_errors=True)


@st.composite
def options(draw, multi=True):
  sharded = draw(st.booleans()) or draw(st.booleans())
  n = draw(st.integers(1, 7)) if sharded else 1
  return dict(
      counts=[draw(st.integers(0, 6)) for _ in range(n)], sharded=sharded,
      base=draw(st.sampled_from(['data', 'tr-00001-of-00002', 'a.tfrecord', '50%d', 'x_%s'])),
      dirname=draw(st.sampled_from(['d', 'v@1.2', 'u@3/p%d', 'a b'])),
      batch=draw(st.sampled_from([(), (), (1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2)])),
      repeat=draw(st.sampled_from([1, 1, 2, 3])), shards=draw(st.integers(1, 9)),
      seed=draw(st.sampled_from([None, None, 0, 1, 7, 12345])),
      buffer=draw(st.sampled_from([1, 3, 100, 1000])),
      deterministic=draw(st.booleans()) or draw(st.booleans()), drop=draw(st.booleans()))


def dataset(c, path, **over):
  import tensorflow as tf
  from waymax import config as C
  from waymax.dataloader import dataloader_utils as du
  fn = lambda b: {'id': tf.strings.to_number(b, tf.int32)}
  kw = dict(shuffle_seed=c['seed'], shuffle_buffer_size=c['buffer'], repeat=c['repeat'],
            batch_dims=c['batch'], num_shards=c['shards'], deterministic=c['deterministic'],
            drop_remainder=c['drop'])
  kw.update(over)
  fn = kw.pop('fn', fn)
  return du.tf_examples_dataset(path, C.DataFormat.TFRECORD, fn, **kw)


def iterate(ds):
  import tensorflow as tf
  try:
    yield from ds.as_numpy_iterator()
  except tf.errors.OpError as e:
    raise Violation(f'reading the dataset failed: {type(e).__name__} {str(e)[-300:]}') from None


def drain(ds, limit=10**6):
  out = []
  for e in iterate(ds):
    out.append(np.asarray(e['id']))
    if len(out) >= limit:
      break
  return out


def ids_of(elems):
  return [int(i) for e in elems for i in e.reshape(-1)]


def seen_most(got, want, repeat, what):
  cnt = collections.Counter(got)
  extra = [k for k in cnt if k not in set(want)]
  require(not extra, f'{what}: records that no named file holds', extra[:3])
  require(all(v <= repeat for v in cnt.values()), f'{what}: a record more often than {repeat}x', cnt)
  return cnt


def batching(c, want, elems):
  """elems are the wanted ids, once per pass, in the configured batches."""
  got, b, total = ids_of(elems), c['batch'], len(want) * c['repeat']
  if not b:
    require(all(e.shape == () for e in elems), 'unbatched element shapes')
    eq(sorted(got), sorted(want * c['repeat']), 'delivered records')
  elif c['drop']:
    require(all(e.shape == b for e in elems), 'batch shapes', [e.shape for e in elems], b)
    seen_most(got, want, c['repeat'], 'full batches')
    size = int(np.prod(b))
    # At most one incomplete batch per loading shard is dropped.
    require(total - len(got) <= c['shards'] * (size - 1), 'more records dropped than incomplete batches explain',
            total - len(got), c['shards'], size)
    if c['shards'] == 1:
      require(len(elems) == total // size, 'number of full batches', len(elems), total // size)
  else:
    require(all(e.ndim == 1 and 1 <= e.shape[0] <= b[0] for e in elems), 'batch shapes', [e.shape for e in elems])
    eq(sorted(got), sorted(want * c['repeat']), 'delivered records')
    short = sum(e.shape[0] < b[0] for e in elems)
    require(short <= c['shards'], 'more incomplete batches than shards', short)


@R.law(options(), quick=80, name='every record once per pass, in configured batches')
def once(c):
  if len(c['batch']) > 1:
    c = dict(c, drop=True)  # uneven incomplete batches cannot be batched again
  with Scratch(c) as s:
    want = [k for f in s.files for k in f]
    elems = drain(dataset(c, s.path))
    batching(c, want, elems)
    got, b = ids_of(elems), c['batch']
    if not b and c['seed'] is None and c['deterministic'] and c['shards'] == 1 and len(s.files) == 1:
      eq(got, want * c['repeat'], 'order of one unshuffled file')
    if c['deterministic']:
      again = drain(dataset(c, s.path))
      require(len(again) == len(elems), 'same length twice')
      for x, y in zip(elems, again):
        eq(y, x, 'order of a deterministic read')
    # Loading shards, shuffling and seeds change the order only.
    if not b:
      one = ids_of(drain(dataset(c, s.path, num_shards=1, shuffle_seed=None)))
      eq(sorted(one), sorted(got), 'records with one shard')
  lab = [f"batch rank {len(b)}"] if len(want) > 1 else []
  if lab and c['seed'] is not None:
    lab.append('shuffled')
  if lab and c['shards'] > 3:
    lab.append('many shards')
  return lab


@R.law(st.fixed_dictionaries(dict(seed=st.integers(0, 10**6), shards=st.integers(1, 3),
                                  n=st.integers(20, 60), nfiles=st.integers(1, 4))), quick=8, name='shuffling')
def shuffling(c):
  """A seed shuffles (reproducibly, differently per seed); None keeps the order."""
  o = dict(counts=[c['n']] * c['nfiles'], sharded=True, base='data', dirname='d', batch=(), repeat=1,
           shards=c['shards'], seed=c['seed'], buffer=1000, deterministic=True, drop=True)
  with Scratch(o) as s:
    orders = [ids_of(drain(dataset(o, s.path, shuffle_seed=x))) for x in (None, c['seed'], c['seed'], c['seed'] + 1)]
    for x in orders:
      eq(sorted(x), sorted(orders[0]), 'records')
    eq(orders[1], orders[2], 'the same seed twice')
    require(orders[1] != orders[0], 'a seed does not shuffle')
    require(orders[1] != orders[3], 'different seeds shuffle alike')
    tiny = ids_of(drain(dataset(o, s.path, shuffle_seed=c['seed'], shuffle_buffer_size=1)))
    eq(sorted(tiny), sorted(orders[0]), 'records with a small buffer')
  return ['shuffled']


@R.law(options(), quick=32, name='endless repetition reads everything')
def endless(c):
  with Scratch(c) as s:
    want = [k for f in s.files for k in f]
    ds = dataset(c, s.path, repeat=None, batch_dims=())
    # Shards of unequal size progress at different rates (and a shuffle buffer
    # delays records): bound generously.
    n = max([1] + [len(f) for f in s.files]) * len(s.files) * c['shards'] * 4 + 50
    n *= 1 if c['seed'] is None else 5
    got = ids_of(drain(ds, n))
    if not want:
      require(not got, 'records out of empty files')
      return []
    require(len(got) == n, 'an endless dataset ended', len(got))
    require(set(got) <= set(want), 'foreign records')
    missing = set(want) - set(got)
    # A non-deterministic read may prefer fast shards for a while.
    require(not missing or not c['deterministic'], 'records never delivered', sorted(missing)[:5], 'after', n)
    return ['endless'] if len(want) > 1 else []


@R.law(options(), quick=40, name='one example per object')
def unbatched(c):
  """batch_by_scenario=False: the rows of every record, each once per pass."""
  import tensorflow as tf
  def rows(b):
    k = tf.strings.to_number(b, tf.int32)
    return {'id': k * 10 + tf.range(3), 'x': tf.repeat(tf.cast(k, tf.float32), 3)}
  if len(c['batch']) > 1:
    c = dict(c, drop=True)
  with Scratch(c) as s:
    want = [k * 10 + j for f in s.files for k in f for j in range(3)]
    elems = []
    for e in iterate(dataset(c, s.path, fn=rows, batch_by_scenario=False)):
      eq(np.asarray(e['x']), (np.asarray(e['id']) // 10).astype(np.float32), 'row keeps its features')
      elems.append(np.asarray(e['id']))
    batching(c, want, elems)
  return (['rows'] if want else []) + ([f"row batches {len(c['batch'])}"] if c['batch'] and want else [])


@R.law(options(), quick=24, name='data generator')
def generator(c):
  import jax
  import tensorflow as tf
  from waymax import config as C
  from waymax.dataloader import dataloader_utils as du
  fn = lambda b: {'id': tf.strings.to_number(b, tf.int32)}
  with Scratch(c) as s:
    want = [k for f in s.files for k in f]
    for dist in (False, True):
      drop = c['drop'] or dist or len(c['batch']) > 1
      lead = (jax.local_device_count(),) if dist else ()
      for post in (None, lambda d: {'id': d['id'] * 2}):
        cfg = C.DatasetConfig(path=s.path, repeat=c['repeat'], batch_dims=c['batch'], shuffle_seed=c['seed'],
                              shuffle_buffer_size=c['buffer'], num_shards=c['shards'],
                              deterministic=c['deterministic'], drop_remainder=drop, distributed=dist)
        k = 1 if post is None else 2
        got = []
        for g in du.get_data_generator(cfg, fn, post):
          v = np.asarray(g['id'])
          require(np.all(v % k == 0), 'the postprocessing is applied', v)
          got.append(v // k)
        batching(dict(c, batch=lead + c['batch'], drop=drop), want, got)
    try:
      du.tf_examples_dataset(s.path, 'CSV', fn)
    except ValueError:
      pass
    else:
      raise Violation('an unsupported data format was accepted')
  return ['generated'] if len(want) > 1 else []


@R.law(options(), quick=24, name='several hosts')
def hosts(c):
  """Every host reads its own part: together each record once per pass."""
  from unittest import mock
  import jax
  n = 1 + c['buffer'] % 3 + len(c['counts']) % 2
  with Scratch(c) as s:
    want = [k for f in s.files for k in f]
    got = []
    for i in range(n):
      with mock.patch.object(jax, 'process_count', lambda *a, **k: n), \
           mock.patch.object(jax, 'process_index', lambda *a, i=i, **k: i):
        got += ids_of(drain(dataset(c, s.path, batch_dims=())))
    eq(sorted(got), sorted(want * c['repeat']), f'records delivered to {n} hosts together')
  return [f'{n} hosts'] if n > 1 and want else []


@R.law(st.fixed_dictionaries(dict(
    base=st.text('ab/@%dsx-_. 019', min_size=1, max_size=14),
    n=st.one_of(st.integers(1, 60), st.sampled_from([99, 100, 1000, 9999, 10000, 99999, 100000, 123456])))),
       quick=200, name='names of sharded files')
def names(c):
  from waymax.dataloader import dataloader_utils as du
  got = list(du.generate_sharded_filenames(f"{c['base']}@{c['n']}"))
  w = max(5, len(str(c['n'])))
  require(len(got) == c['n'], 'number of files', len(got))
  n = c['n']
  for i in {0, n - 1, n // 2, n // 3}:
    require(got[i] == f"{c['base']}-{i:0{w}d}-of-{n:0{w}d}", 'file name', got[i])
  require(len(set(got)) == n, 'duplicate names')
  return ['special'] if set('@%') & set(c['base']) else ['plain']


@R.law(st.fixed_dictionaries(dict(
    seed=st.integers(0, 2**31), files=st.lists(st.integers(0, 2), min_size=1, max_size=3),
    batch=st.sampled_from([(), (1,), (2,)]), distributed=st.booleans(),
    shards=st.integers(1, 4), objects=st.sampled_from([None, 8]),
    paths=st.sampled_from([None, (2, 3)]), shuffle=st.sampled_from([None, 5]))),
       quick=16, name='simulator states end to end')
def states(c):
  """Record files on disk to simulator states, each record once."""
  import jax
  import tensorflow as tf
  from waymax import config as C
  from waymax.dataloader import womd_dataloader as wl
  k, m = c['paths'] or (None, None)
  d = tempfile.mkdtemp(prefix='c26_')
  try:
    recs, n = {}, len(c['files'])
    for i, cnt in enumerate(c['files']):
      with tf.io.TFRecordWriter(f'{d}/r-{i:05d}-of-{n:05d}') as w:
        for j in range(cnt):
          r = records.record(c['seed'] + 17 * i + j, 'mixed', True, points=5, paths=k, path_points=m)
          r['roadgraph_samples/id'][0, 0] = key = 100 * i + j
          recs[key] = r
          w.write(records.serialize(r))
    cfg = C.DatasetConfig(path=f'{d}/r@{n}', repeat=1, batch_dims=c['batch'], num_shards=c['shards'],
                          shuffle_seed=c['shuffle'], include_sdc_paths=c['paths'] is not None, num_paths=k,
                          num_points_per_path=m, max_num_rg_points=5, max_num_objects=c['objects'],
                          drop_remainder=False if not c['distributed'] else True, distributed=c['distributed'])
    seen = []
    for s in wl.simulator_state_generator(cfg):
      lead = ((jax.local_device_count(),) if c['distributed'] else ())
      require(len(s.shape) == len(lead) + len(c['batch']), 'batch rank', s.shape)
      flat = jax.tree_util.tree_map(lambda x: np.asarray(x).reshape((-1,) + x.shape[len(s.shape):]), s)
      for i in range(flat.timestep.shape[0]):
        one = jax.tree_util.tree_map(lambda x: x[i], flat)
        key = int(one.roadgraph_points.ids[0])
        seen.append(key)
        want = records.joined(recs[key])
        if c['objects']:
          want = {a: v[:c['objects']] if a.startswith('state/') else v for a, v in want.items()}
        records.check_state(jax.tree_util.tree_map(jax.numpy.asarray, one), records.expected_state(want))
    if c['distributed'] and c['batch']:  # incomplete batches dropped
      seen_most(seen, list(recs), 1, 'states')
    else:
      eq(sorted(seen), sorted(recs), 'delivered states')
  finally:
    shutil.rmtree(d, ignore_errors=True)
  return ['states'] if seen else []


FIND = dict(counts=[2, 2, 2, 2], sharded=True, base='data', dirname='d', batch=(8,), repeat=1,
            shards=4, seed=None, buffer=1, deterministic=True, drop=True)


@R.finding('F1')
def shard_batches():
  """num_shards changes which incomplete batches are dropped."""
  with Scratch(FIND) as s:
    one = drain(dataset(FIND, s.path, num_shards=1))
    return len(drain(dataset(FIND, s.path))) != len(one)
