"""C15, C16: reading point files and batches through a failing file system."""
import random

import numpy as np

from sim import fs, gen
from sim.core import Fault, HarnessError, Violation
from sim.scen import scenario, short
from sim.world import digest_tree

DTYPES = {'float32': np.float32, 'float64': np.float64, 'int32': np.int32}


# -- generation --------------------------------------------------------------

def number(rng, ints):
  if ints:
    return str(rng.randint(-999, 999))
  mode = rng.randrange(9)
  if mode == 0:
    return str(rng.randint(-5, 99999))
  if mode == 1:
    return repr(rng.uniform(-1, 1))
  if mode == 2:
    return '%.6f' % rng.uniform(-2, 2)
  if mode == 3:
    return '%e' % rng.uniform(-1e-3, 1e-3)
  if mode == 4:
    return '%.8e' % (rng.uniform(-9, 9) * 10.0**rng.randint(-12, 12))
  if mode == 5:
    return rng.choice(['0', '-0.0', '.5', '5.', '+1.25', '1E5', '1e-05',
                       '00.5', '-.25e2'])
  if mode == 6:
    return '%.3g' % rng.uniform(-1000, 1000)
  if mode == 7:
    return repr(gen.f32(rng.gauss(0, 10)))
  return '%.4f' % rng.gauss(0, 1)


def table(rng, ncol, n, delim, ints=False, lead=False):
  rows = []
  for _ in range(n):
    row = [number(rng, ints) for _ in range(ncol)]
    if lead and delim.strip() and rng.random() < 0.3:
      row = [' ' + v if rng.random() < 0.5 else v for v in row]
    rows.append(row)
  return rows


def point_file(rng, ncol, n, delim, ints, name):
  return dict(name=name, rows=table(rng, ncol, n, delim, ints,
                                    lead=rng.random() < 0.3),
              delim=delim, eol=rng.choice(['\n', '\n', '\r\n']),
              final=rng.random() < 0.7)


def content(f):
  text = f['eol'].join(f['delim'].join(r) for r in f['rows'])
  return text + (f['eol'] if f['final'] else '')


DELIMS = [',', ',', ' ', ';', '\t', ', ', '|', '::']
FS_FAULTS = ['internal', 'oom', 'cancelled', 'memory']


def faults(rng, rate, n):
  if rng.random() >= rate:
    return []
  mode = rng.random()
  if mode < 0.3:
    pos = rng.randrange(4)
  else:
    pos = rng.randrange(2 * n + 12)
  return [[pos, rng.choice(FS_FAULTS)]]


# -- checks --------------------------------------------------------------------

def expected(rows, dim, dtype):
  """Coordinates and features a list of rows stands for."""
  pts = np.array([[float(v) for v in r[:dim]] for r in rows], np.float64)
  fts = np.array([[float(v) for v in r[dim:]] for r in rows], np.float64)
  return pts.reshape(len(rows), -1), fts.reshape(len(rows), -1)


def same(got, want, dtype, what):
  got = np.asarray(got)
  if list(got.shape) != list(want.shape):
    raise Violation('rows', f'{what} has shape {list(got.shape)}, the file has '
                    f'{list(want.shape)}')
  if got.dtype != dtype:
    raise Violation('dtype', f'{what} has type {got.dtype}, not {dtype}')
  if want.size == 0:
    return
  w = want.astype(dtype)
  ok = got == w
  if dtype in (np.float32, np.float64):
    # one unit in the last place may be lost by rounding twice
    ok |= np.abs(got.astype(np.float64) - w) <= np.spacing(
        np.abs(w)).astype(np.float64) * 1.001
  if not ok.all():
    i = tuple(int(v) for v in np.argwhere(~ok)[0])
    raise Violation('values', f'{what}{list(i)} is {got[i]!r}, the file says '
                    f'{want[i]!r}')


class Base:

  def run(self, plan, sim):
    fs.install()
    with fs.Scratch() as sc:
      for f in plan['lists']['files']:
        sc.write(f['name'], content(f) if 'rows' in f else f['text'])
      files = {f['name']: f for f in plan['lists']['files']}

      def client(ops):
        def go(c):
          for k, o in enumerate(ops):
            self.op(sim, sc, files, o, c.idx, k)
        return go
      ops = plan['lists']['ops']
      n = plan.get('nclients', 1)
      parts = [[o for o in ops if o['cl'] == i] for i in range(n)]
      parts = [p for p in parts if p]
      if parts:
        sim.run_clients([client(p) for p in parts])

  def op(self, sim, sc, files, o, ci, k):
    thunk, check, err = self.prepare(sc, files, o)
    if thunk is None:
      sim.event('skip-op', ci, k)
      return
    fl = [Fault(p, kind) for p, kind in o.get('faults', ())]
    sim.event('op', ci, k, o['op'])
    for attempt in range(2):
      st, val = sim.call(thunk, fl if attempt == 0 else ())
      hit = attempt == 0 and any(f.fired for f in fl)
      if hit:
        at = [f.at for f in fl if f.fired]
        if st == 'ok':
          raise Violation('swallowed', f'{o}: a failure in {at} while reading '
                          'was not reported, a result was returned')
        sim.event('failed', ci, k, type(val).__name__)
        sim.probe('retry')
        continue
      break
    if err:
      if st == 'ok':
        raise Violation('no-error', f'{o}: {err} did not raise')
      if o.get('exc') and type(val).__name__ not in o['exc']:
        raise Violation('wrong-error', f'{o}: {err} raised '
                        f'{type(val).__name__}: {short(val)}')
      sim.event('raised', ci, k)
      sim.ops_ok += 1
      return
    if st == 'err':
      raise Violation('unexpected-error',
                      f'{o}: {type(val).__name__}: {short(val)}')
    sim.ops_ok += 1
    try:
      check(val, sim)
    except Violation as v:
      raise Violation(v.kind, f'{o}: {v.msg}')
    sim.checks += 1
    sim.event('res', ci, k, digest_tree([np.asarray(v) for v in val]))


def tf_dtype(name):
  import tensorflow as tf
  return tf.as_dtype(name)


@scenario('C15')
class ReadFile(Base):

  def gen(self, rng, seed, tier):
    plan = dict(prop='C15', seed=seed, lists=dict(files=[], ops=[]))
    rate = rng.choice([0, 0.3, 0.7])
    plan['nclients'] = rng.choice([1, 1, 1, 2])
    for i in range(rng.randint(1, 3)):
      delim = rng.choice(DELIMS)
      ints = rng.random() < 0.15
      ncol = rng.randint(1, 8)
      n = rng.choice([1, 1, 2, 5, rng.randint(1, 40), rng.randint(1, 40), 300])
      f = point_file(rng, ncol, n, delim, ints, f'f{i}.txt')
      if rng.random() < 0.1 and n > 1:
        # a damaged row: too short or not a number
        r = rng.randrange(n)
        if rng.random() < 0.5 and ncol > 1:
          f['rows'][r] = f['rows'][r][:-1]
        else:
          f['rows'][r][rng.randrange(ncol)] = rng.choice(['x', 'abc', '1.2.3'])
        f['bad'] = r
      plan['lists']['files'].append(f)
      f['ints'] = ints
    for _ in range(rng.randint(1, 5)):
      f = rng.choice(plan['lists']['files'])
      n = len(f['rows'])
      o = dict(op=rng.choice(['tensor', 'numpy', 'numpy']), file=f['name'],
               cl=rng.randrange(plan['nclients']),
               dim=rng.randint(1, len(f['rows'][0])),
               dtype=('int32' if f['ints'] and rng.random() < 0.5 else
                      rng.choice(['float32', 'float32', 'float64'])))
      if o['op'] == 'numpy' and rng.random() < 0.6:
        o['max'] = rng.choice([1, n, n + 1, n + 7, max(1, n - 1),
                               rng.randint(1, n)])
      m = rng.random()
      if m < 0.06:
        o['file'] = 'missing/none.txt'
        o['exc'] = ['FileNotFoundError']
      elif m < 0.12:
        o['badtype'] = rng.choice(['int', 'list', 'none', 'bytes'])
        o['exc'] = ['TypeError']
      else:
        o['faults'] = faults(rng, rate, n)
      plan['lists']['ops'].append(o)
    plan['sched'] = gen.sched(rng, plan['nclients'])
    return plan

  def prepare(self, sc, files, o):
    import pylib.io as io
    f = files.get(o['file'])
    name = sc.path(o['file'])
    if o.get('badtype'):
      name = dict(int=5, list=[name], none=None,
                  bytes=name.encode())[o['badtype']]
    err = None
    if f is None and not o['file'].startswith('missing'):
      return None, None, None
    kw = dict(dimension=o['dim'])
    if f is None or f['delim'] != ',':
      kw['delimiter'] = f['delim'] if f else ','
    dt = DTYPES[o['dtype']]
    if o['op'] == 'tensor':
      fn = io.load_points_from_file_to_tensor
      if o['dtype'] != 'float32':
        kw['dtype'] = tf_dtype(o['dtype'])
    else:
      fn = io.load_points_from_file_to_numpy
      if o['dtype'] != 'float32':
        kw['dtype'] = dt
      if o.get('max') is not None:
        kw['max_num_points'] = o['max']
    if o.get('badtype'):
      err = 'a wrong argument type'
    elif f is None:
      err = 'a missing file'
    else:
      rows = f['rows'][:o.get('max', len(f['rows']))]
      lens = {len(r) for r in rows}
      if not rows or max(lens) < o['dim']:
        return None, None, None
      bad = len(lens) > 1 or not all(numeric(v) for r in rows for v in r)
      if bad:
        err = 'a file with a damaged row'

    def thunk():
      return fn(name, **kw)

    def check(val, sim):
      pts, fts = expected(rows, o['dim'], dt)
      same(val[0], pts, dt, 'points')
      same(val[1], fts, dt, 'features')
    return thunk, check, err


def numeric(v):
  try:
    float(v)
    return True
  except ValueError:
    return False


def mesh_text(rng, kind, n):
  """A triangle mesh with n vertices, all used by a face and distinct."""
  V = set()
  while len(V) < n:
    V.add(tuple(float('%.4g' % rng.uniform(-2, 2)) for _ in range(3)))
  V = sorted(V)
  rng.shuffle(V)
  F = [[0, 1, 2]]
  for i in range(3, n):
    a, b = rng.sample(range(i), 2)
    F.append([a, b, i])
  if kind == 'off':
    t = 'OFF\n%d %d 0\n' % (len(V), len(F))
    t += ''.join('%r %r %r\n' % v for v in V)
    t += ''.join('3 %d %d %d\n' % tuple(f) for f in F)
  else:
    t = ''.join('v %r %r %r\n' % v for v in V)
    t += ''.join('f %d %d %d\n' % tuple(x + 1 for x in f) for f in F)
  return t, [list(v) for v in V]


@scenario('C16')
class ReadBatch(Base):

  def gen(self, rng, seed, tier):
    plan = dict(prop='C16', seed=seed, lists=dict(files=[], ops=[]))
    rate = rng.choice([0, 0.3, 0.7])
    plan['nclients'] = rng.choice([1, 1, 1, 2])
    mesh = rng.random() < 0.35
    if mesh:
      for i in range(rng.randint(1, 5)):
        kind = rng.choice(['off', 'obj'])
        text, V = mesh_text(rng, kind, rng.choice([3, 4, rng.randint(3, 20)]))
        plan['lists']['files'].append(dict(name=f'm{i}.{kind}', text=text,
                                           V=V, kind=kind))
    else:
      delim = rng.choice(DELIMS)
      ncol = rng.randint(2, 7)
      for i in range(rng.randint(1, 6)):
        nc = ncol if rng.random() < 0.98 else ncol + 1
        n = rng.choice([1, 2, rng.randint(1, 25), rng.randint(1, 25)])
        plan['lists']['files'].append(
            point_file(rng, nc, n, delim, False, f'f{i}.txt'))
      dim = rng.choice([2, 3, 3, 4])
      dim = min(dim, ncol)
    names = [f['name'] for f in plan['lists']['files']]
    for _ in range(rng.randint(1, 4)):
      k = rng.choice([1, 2, 3, 4, 6, 8])
      sel = [rng.choice(names) for _ in range(k)]
      if rng.random() < 0.4:
        sel = names[:]
      k = len(sel)
      o = dict(op='mesh' if mesh else 'batch', files=sel,
               cl=rng.randrange(plan['nclients']),
               shape=rng.choice([None, [-1], [k], gen.shape_for(rng, k),
                                 gen.shape_for(rng, k)]),
               dtype=rng.choice(['float32', 'float32', 'float64']))
      if mesh:
        o['process'] = rng.random() < 0.5
        o['ft'] = rng.random() < 0.3 and len(
            {n.split('.')[1] for n in sel}) == 1
      else:
        o['dim'] = dim
      m = rng.random()
      if m < 0.08:
        o['shape'] = rng.choice([[k + 1], [2, k], [k, 2], [k + 3, 1]])
        o['bad'] = True
      elif m < 0.14:
        o['files'] = sel[:]
        o['files'][rng.randrange(k)] = 'missing.' + sel[0].split('.')[1]
      else:
        o['faults'] = faults(rng, rate, 8 * k)
      plan['lists']['ops'].append(o)
    plan['sched'] = gen.sched(rng, plan['nclients'])
    return plan

  def prepare(self, sc, files, o):
    import pylib.io as io
    missing = [n for n in o['files'] if n.startswith('missing')]
    if any(n not in files and n not in missing for n in o['files']):
      return None, None, None
    k = len(o['files'])
    paths = [sc.path(n) for n in o['files']]
    shape = o['shape']
    fit = shape is None or shape == [-1] or int(np.prod(shape)) == k
    err = None
    if not fit:
      err = 'a batch shape that does not fit'
    elif missing:
      err = 'a missing file'
    kw = {}
    if shape is not None:
      kw['batch_shape'] = list(shape)
    if o['dtype'] != 'float32':
      kw['dtype'] = tf_dtype(o['dtype'])
    dt = DTYPES[o['dtype']]
    if o['op'] == 'mesh':
      patch_resolver()
      fn = io.load_batch_of_meshes
      if not o['process']:
        kw['process'] = False
      if o.get('ft') and not missing:
        kw['file_type'] = o['files'][0].split('.')[1]
      dim = 3
      want = None
      if err is None:
        want = [(mesh_vertices(sc, files[n], o['process']),
                 np.zeros([0, 0])) for n in o['files']]
    else:
      fn = io.load_batch_of_points
      dim = o['dim']
      fset = [files[n] for n in o['files'] if n in files]
      if len({f['delim'] for f in fset}) > 1:
        return None, None, None
      if fset and fset[0]['delim'] != ',':
        kw['delimiter'] = fset[0]['delim']
      if dim != 3:
        kw['point_dimension'] = dim
      if err is None:
        if any(not f['rows'] for f in fset):
          return None, None, None
        if len({len(f['rows'][0]) for f in fset}) > 1:
          err = 'files with different numbers of features'
        else:
          want = [expected(f['rows'], dim, dt) for f in fset]

    def thunk():
      return fn(paths, **kw)

    def check(val, sim):
      check_batch(val, want, o, dim, dt, sim)
    return thunk, check, err


def patch_resolver():
  """tensorflow_graphics' resolver lacks methods newer trimesh declares."""
  from tensorflow_graphics.io import triangle_mesh
  triangle_mesh.GFileResolver.__abstractmethods__ = frozenset()


_mesh_cache = {}


def mesh_vertices(sc, f, process):
  import trimesh
  key = (f['text'], process)
  if key not in _mesh_cache:
    if len(_mesh_cache) > 200:
      _mesh_cache.clear()
    kw = {} if process else dict(process=False)
    _mesh_cache[key] = np.array(
        trimesh.load(sc.path(f['name']), **kw).vertices, np.float64)
    V = {tuple(v) for v in f['V']}
    if {tuple(v) for v in _mesh_cache[key].tolist()} != V:
      raise HarnessError('trimesh reads other vertices than written')
  return _mesh_cache[key]


def check_batch(val, want, o, dim, dt, sim):
  k = len(want)
  shape = [k] if o['shape'] in (None, [-1]) else list(o['shape'])
  if len(val) != (2 if o['op'] == 'mesh' else 3):
    raise Violation('result', f'{len(val)} results')
  pts, sizes = np.asarray(val[0]), np.asarray(val[-1])
  V = max(len(w[0]) for w in want)
  if list(pts.shape) != shape + [V, dim]:
    raise Violation('shape', f'points have shape {list(pts.shape)}, expected '
                    f'{shape + [V, dim]}')
  if list(sizes.shape) != shape or sizes.dtype.kind != 'i':
    raise Violation('shape', f'sizes {sizes.dtype} {list(sizes.shape)}')
  flat = pts.reshape([k, V, dim])
  fs_ = sizes.reshape(-1)
  feats = None
  if o['op'] == 'batch':
    nf = want[0][1].shape[1]
    feats = np.asarray(val[1])
    if list(feats.shape) != shape + [V, nf]:
      raise Violation('shape', f'features have shape {list(feats.shape)}, '
                      f'expected {shape + [V, nf]}')
    feats = feats.reshape([k, V, nf])
  for i, (p, f) in enumerate(want):
    if fs_[i] != len(p):
      raise Violation('sizes', f'file {i} has {len(p)} points, size {fs_[i]}')
    same(flat[i, :len(p)], p, dt, f'points of file {i}')
    if (flat[i, len(p):] != 0).any():
      raise Violation('padding', f'points of file {i} not padded with zeros')
    if feats is not None:
      same(feats[i, :len(p)], f, dt, f'features of file {i}')
      if (feats[i, len(p):] != 0).any():
        raise Violation('padding', f'features of file {i} not padded with zeros')
  if o['dtype'] == 'float32' and dim >= 2:
    from pylib.pc import PointCloud

    def build():
      pc = PointCloud(val[0], sizes=val[-1])
      return pc.get_sizes(), [pc.get_points(id=[int(x) for x in ind])
                              for ind in np.ndindex(*shape)]
    st, got = sim.call(build)
    if st == 'err':
      raise Violation('cloud', f'no cloud from the loaded batch: '
                      f'{type(got).__name__}: {short(got)}')
    if np.asarray(got[0]).tolist() != sizes.tolist():
      raise Violation('cloud', 'sizes of the cloud differ from the loaded ones')
    for i, g in enumerate(got[1]):
      same(np.asarray(g), want[i][0], dt, f'points of element {i} of the cloud')


from sim import scen_ds  # noqa: E402,F401  pylint: disable=wrong-import-position
