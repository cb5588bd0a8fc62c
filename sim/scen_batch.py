"""C26: the elements of a batch do not influence each other.

A run has a pool of elements (points, centers, features) and one pipeline with
its layers.  A history of calls shows batches of these elements to the pipeline:
any selection in any order, also twice or alone, next to empty ones, padded or
flat, with the points of each element in any order; one or two threads, some
calls fail.  What is computed for an element must be the same in every batch.
"""
import random

import numpy as np

from sim import core, gen, world
from sim.core import Fault, HarnessError, Skip, Violation
from sim.scen import conv_spec, scenario, short
from sim.world import npy

KINDS = dict(hood=4, conv=6, pool=4, block=3, avg=3, pipe=4, model=2)


def element_features(e, n, C):
  f = gen.features(e['fs'], n, C)
  if e.get('bad') and n:
    f[e['bad'][0] % n, e['bad'][1] % C] = float(e['bad'][2])
  return f


# -- batches -----------------------------------------------------------------------

class Batch:
  """A batch of elements of the pool as arguments of a call."""

  def __init__(self, s, pool, view):
    B = len(view['idx'])
    D, C = s['D'], s['C']
    self.B, self.idx = B, view['idx']
    rng = np.random.RandomState(view['shuf'] % 2**32)
    self.rep = rep = view['rep']
    self.order = []

    def side(key, feats):
      """(points, ids, sizes, features, rows of each element)"""
      els = [pool[i] for i in self.idx]
      ords = [rng.permutation(len(e[key])) if view['inner'] else
              np.arange(len(e[key])) for e in els]
      n = [len(e[key]) for e in els]
      pts = [np.array(e[key], np.float32).reshape(-1, D)[o]
             for e, o in zip(els, ords)]
      ids = np.repeat(np.arange(B), n).astype(np.int32)
      flat = np.concatenate(pts)
      # row in the flat layout of point j of each element
      rows, k = [], 0
      for o in ords:
        r = np.empty(len(o), int)
        r[o] = k + np.arange(len(o))
        rows.append(r)
        k += len(o)
      f = None
      if feats:
        f = np.concatenate([element_features(e, len(e[key]), C)[o]
                            for e, o in zip(els, ords)])
      if rep == 'ids':
        p = rng.permutation(len(flat)) if view['mix'] else \
            np.arange(len(flat))
        inv = np.empty(len(p), int)
        inv[p] = np.arange(len(p))
        return (flat[p], ids[p], None, None if f is None else f[p],
                [inv[r] for r in rows])
      sizes = np.array(n, np.int32)
      if rep == 'sizes':
        return flat, None, sizes, f, rows
      width = max(1, max(n)) + view['extra']
      pad = np.full([B, width, D], view['fill'], np.float32)
      fp = np.full([B, width, C], view['fill'], np.float32)
      k = 0
      for b in range(B):
        pad[b, :n[b]] = flat[k:k + n[b]]
        if f is not None:
          fp[b, :n[b]] = f[k:k + n[b]]
        k += n[b]
      return pad, None, sizes, fp if feats and view['padf'] else f, rows
    self.pts, self.ids, self.sizes, self.feat, self.rows = side('pts', True)
    if s['centers'] == 'other':
      self.cpts, self.cids, self.csizes, _, self.crows = side('cpts', False)
    else:
      self.crows = self.rows

  def noisy(self, seed):
    """The same with rounding errors."""
    o = object.__new__(Batch)
    o.__dict__.update(self.__dict__)
    r = np.random.RandomState(seed)
    for k in ('pts', 'cpts', 'feat'):
      v = getattr(self, k, None)
      if v is not None:
        setattr(o, k, (v * (1 + r.uniform(-3e-7, 3e-7, v.shape))).astype(
            np.float32))
    return o


def clouds(s, a):
  from pylib.pc import PointCloud

  def one(pts, ids, sizes):
    if ids is not None:
      return PointCloud(pts, batch_ids=ids, batch_size=a.B)
    if s['bs']:
      return PointCloud(pts, sizes=sizes, batch_size=a.B)
    return PointCloud(pts, sizes=sizes)
  c = one(a.pts, a.ids, a.sizes)
  if s['centers'] == 'other':
    return c, one(a.cpts, a.cids, a.csizes)
  return c, c


# -- pipelines -----------------------------------------------------------------------

def hood(s, c, z):
  from pylib import pc
  g = pc.Grid(c, np.full([s['D']], s['cell'], np.float32))
  return pc.Neighborhood(g, s['radius'], z)


def f_hood(s, a, w):
  c, z = clouds(s, a)
  n = hood(s, c, z)
  out = [('pairs', n._original_neigh_ids, n.get_pdf(
      bandwidth=s['bw'], normalize=s['norm']), 'rc')]
  if s['transpose']:
    t = n.transpose()
    out.append(('pairs', t._original_neigh_ids, t.get_pdf(
        bandwidth=s['bw']), 'cr'))
  box = c.get_AABB()
  out.append(('e', box._aabb_min))
  out.append(('e', box._aabb_max))
  out.append(('e', c.get_sizes()))
  return out


def kw_conv(s, spec):
  if spec['lt'] == 'kp':
    return dict(kernel_influence_dist=s['radius'])
  return dict(bandwidth=s['bw'])


def conv(s, w, name, f, c, z, radius, **kw):
  l, spec = w.r(name), w.spec[name]
  if spec['lt'] == '1x1':
    return l(f, c)
  if spec['lt'] == 'kp':
    kw['kernel_influence_dist'] = radius
  else:
    kw['bandwidth'] = s['bw']
  return l(f, c, z, radius, **kw)


def f_conv(s, a, w):
  c, z = clouds(s, a)
  if w.spec['layer']['lt'] == '1x1':
    return [('p', w.r('layer')(a.feat, c))]
  kw = dict(neighborhood=hood(s, c, z)) if s['given'] else {}
  return [('c', conv(s, w, 'layer', a.feat, c, z, s['radius'], **kw))]


def f_pool(s, a, w):
  c, z = clouds(s, a)
  p = w.r('pool')
  if w.spec['pool']['p'] in ('gmax', 'gavg'):
    return [('e', p(a.feat, c))]
  return [('c', p(a.feat, c, z, s['radius']))]


def f_block(s, a, w):
  c, z = clouds(s, a)
  l, spec = w.r('block'), w.spec['block']
  kw = dict(training=False, **kw_conv(s, spec['conv']))
  if spec['bt'] == 'spatial':
    return [('p', l(a.feat, c, z, np.full([3], s['radius'], np.float32),
                    **kw))]
  return [('p', l(a.feat, c, s['radius'], **kw))]


def f_avg(s, a, w):
  from pylib.pc import sampling
  c, _ = clouds(s, a)
  z = sampling.cell_average_sampling(
      c, np.full([s['D']], s['radius'], np.float32))
  return [('cloud', z._points, z._batch_ids, None), ('e', z.get_sizes())]


def f_pipe(s, a, w):
  from pylib import pc
  from pylib.pc import layers as L
  c, _ = clouds(s, a)
  h = pc.PointHierarchy(c, np.array(s['levels'], np.float32).reshape(-1, 1),
                        'cell average')
  r1, r2 = (2.0 * r for r in s['levels'])
  x = conv(s, w, 'conv1', a.feat, h[0], h[1], r1)
  x = w.r('pool')(x, h[1], h[2], r2)
  x = conv(s, w, 'conv2', x, h[2], h[2], r2)
  up = conv(s, w, 'conv3', x, h[2], h[0], r2)
  return [('cloud', h[1]._points, h[1]._batch_ids, None),
          ('cloud', h[2]._points, h[2]._batch_ids, x),
          ('p', up), ('e', L.GlobalAveragePooling()(x, h[2]))]


def f_model(s, a, w):
  import tensorflow as tf
  model = w.r('model')
  type(model).__init__.__globals__['batch_size'] = a.B
  tf.config.run_functions_eagerly(True)
  try:
    return [('e', model(tf.constant(a.pts), tf.ones(a.pts.shape[:2] + (1,)),
                        tf.constant(a.sizes), tf.constant(False)))]
  finally:
    tf.config.run_functions_eagerly(False)


FUNCS = dict(hood=f_hood, conv=f_conv, pool=f_pool, block=f_block, avg=f_avg,
             pipe=f_pipe, model=f_model)


# -- results of an element -------------------------------------------------------------

def split(out, a):
  """Results by position in the batch."""
  res = []
  for e in out:
    kind = e[0]
    val = [None if x is None or isinstance(x, str) else npy(x)
           for x in e[1:]]
    if kind in ('p', 'c'):
      rows = a.rows if kind == 'p' else a.crows
      total = sum(len(r) for r in rows)
      if len(val[0]) != total:
        raise Violation('batch-shape', f'{len(val[0])} rows for {total} points')
      res.append([('rows', val[0][r]) for r in rows])
    elif kind == 'e':
      if len(val[0]) != a.B:
        raise Violation('batch-shape', f'{len(val[0])} rows for {a.B} elements')
      res.append([('rows', val[0][b]) if len(a.rows[b]) else None
                  for b in range(a.B)])
    elif kind == 'pairs':
      left, right = (a.rows, a.crows) if e[3] == 'rc' else (a.crows, a.rows)

      def back(rows):
        d = {}
        for b, r in enumerate(rows):
          for j, k in enumerate(r):
            d[int(k)] = (b, j)
        return d
      dl, dr = back(left), back(right)
      per = [{} for _ in range(a.B)]
      for (i, j), v in zip(val[0], val[1]):
        x, y = dl.get(int(i)), dr.get(int(j))
        if x is None or y is None or x[0] != y[0]:
          raise Violation('batch-pair', f'pair {(int(i), int(j))} joins {x} '
                          f'and {y} (element, point)')
        if (x[1], y[1]) in per[x[0]]:
          raise Violation('batch-pair', f'pair {(int(i), int(j))} twice')
        per[x[0]][x[1], y[1]] = float(v)
      res.append([('pairs', p) for p in per])
    else:
      pts, ids, f = val
      if len(ids) and (ids.min() < 0 or ids.max() >= a.B):
        raise Violation('batch-shape', f'batch ids {ids.min()}..{ids.max()} of '
                        f'{a.B} elements')
      res.append([('cloud', pts[ids == b], None if f is None else f[ids == b])
                  for b in range(a.B)])
  return [[r[b] for r in res] for b in range(a.B)]


def differ(x, y, tol):
  """(structural, size of the difference, text)"""
  if x is None or y is None:
    return False, 0.0, ''
  if x[0] == 'rows':
    if x[1].shape != y[1].shape:
      return True, 0.0, f'shapes {x[1].shape} and {y[1].shape}'
    return False, apart(x[1], y[1]), ''
  if x[0] == 'pairs':
    if set(x[1]) != set(y[1]):
      return True, 0.0, f'pairs {sorted(set(x[1]) ^ set(y[1]))[:4]}'
    k = sorted(x[1])
    return False, apart(np.array([x[1][i] for i in k]),
                        np.array([y[1][i] for i in k])), ''
  if x[1].shape != y[1].shape:
    return True, 0.0, f'{len(x[1])} and {len(y[1])} points'
  if not len(x[1]):
    return False, 0.0, ''
  d = np.abs(x[1][:, None].astype(float) - y[1][None]).max(axis=2)
  near = d.argmin(axis=1)
  if len(set(near)) != len(near):
    return True, 0.0, 'points without a partner'
  worst = float(d.min(axis=1).max())
  if x[2] is not None:
    worst = max(worst, apart(x[2], y[2][near]))
  return False, worst, ''


def apart(x, y):
  x, y = np.asarray(x, float), np.asarray(y, float)
  if not x.size:
    return 0.0
  same = (x == y) | (np.isnan(x) & np.isnan(y))
  with np.errstate(invalid='ignore'):
    d = np.where(same, 0.0, np.abs(x - y))
  return float(np.where(np.isfinite(d), d, np.inf).max())


def size_of(x):
  if x is None:
    return 0.0
  if x[0] == 'pairs':
    v = np.array(list(x[1].values()))
  elif x[0] == 'cloud':
    v = np.concatenate([x[1].ravel()] + ([] if x[2] is None else
                                         [x[2].ravel()]))
  else:
    v = np.asarray(x[1], float).ravel()
  v = np.abs(v[np.isfinite(v)])
  return float(v.max(initial=0.0))


@scenario('C26')
class C26:

  def gen(self, rng, seed, tier):
    kinds = dict(KINDS)
    if core.BACKEND == 'gpu':
      kinds.pop('model')
    kind = rng.choices(list(kinds), list(kinds.values()))[0]
    D = 3 if kind == 'model' else rng.choice([2, 3, 3, 4])
    radius = rng.choice([0.15, 0.25, 0.4, 0.7])
    s = dict(kind=kind, D=D, radius=radius, C=rng.choice([1, 2, 3]),
             cell=gen.f32(radius * rng.choice([1.0, 1.0, 1.5])),
             centers='other' if kind in ('hood', 'conv', 'pool', 'block') and
             rng.random() < 0.5 else 'same', bw=rng.choice([0.2, 0.4, 1.5]),
             norm=rng.random() < 0.4, transpose=rng.random() < 0.4,
             given=rng.random() < 0.4, bs=rng.random() < 0.5,
             levels=sorted(rng.sample([0.1, 0.2, 0.35, 0.6], 2)))
    objs = []
    if kind == 'conv':
      c = conv_spec(rng, D)
      s['C'] = c['cin']
      objs.append(dict(c, t='layer', name='layer'))
    elif kind == 'pool':
      objs.append(dict(t='pool', name='pool',
                       p=rng.choice(['gmax', 'gavg', 'max', 'avg'])))
    elif kind == 'pipe':
      k = rng.choice([2, 4])
      for i, n in enumerate(('conv1', 'conv2', 'conv3')):
        c = conv_spec(rng, D, s['C'] if i == 0 else k, k,
                      kinds=('mc', 'pc', 'kp'))
        if c['lt'] == 'kp':
          c['deform'] = False
        objs.append(dict(c, t='layer', name=n))
      objs.append(dict(t='pool', name='pool', p=rng.choice(['max', 'avg'])))
    elif kind == 'block':
      C = rng.choice([2, 4])
      o = dict(t='block', name='block', C=C, D=D, blocks=rng.choice([1, 2]),
               bt=rng.choice(['plain', 'bottle', 'spatial']),
               proj=rng.random() < 0.5, seed=rng.getrandbits(28))
      o['bottle'] = rng.choice([2, 4])
      k = o['bottle'] if o['bt'] == 'bottle' else C
      o['conv'] = conv_spec(rng, D, k, k, kinds=('mc', 'pc', 'kp'))
      if o['conv']['lt'] == 'kp':
        o['conv']['deform'] = False
      o['type'] = {'mc': 'MCConv', 'pc': 'PointConv',
                   'kp': 'KPConv'}[o['conv']['lt']]
      s['C'] = C
      objs.append(o)
    elif kind == 'model':
      L = rng.choice([1, 2, 3])
      lv = sorted(rng.sample([0.15, 0.3, 0.5, 0.9], L))
      sizes = [4 * rng.choice([1, 2]) for _ in range(L)] + [8, 8, 5]
      objs.append(dict(t='model', name='model', variant='modelnet40', B=2,
                       levels=lv, sizes=sizes, seed=rng.getrandbits(28),
                       type=rng.choice(['MCConv', 'PointConv', 'KPConv'])))
    slow = kind in ('block', 'model', 'pipe')
    nmax = 10 if slow else rng.choice([6, 14, 30])
    pool = []
    n = rng.choice([1, 2, 3, 4])
    far = rng.random() < 0.4
    for _ in range(n):
      p = gen.points(rng, rng.randint(1, nmax), D,
                     rng.choice(['uniform', 'uniform', 'cluster']), 1.0)
      scale, off = 1.0, 0.0
      if far:
        scale = rng.choice([1.0, 0.05, 8.0])
        off = rng.choice([0.0, 0.0, -30.0, 7.0])
      p = [[gen.f32(v * scale + off) for v in q] for q in p]
      cp = [[gen.f32(v + rng.uniform(-0.1, 0.1)) for v in q]
            for q in p if rng.random() < 0.6]
      pool.append(dict(pts=p, cpts=cp, fs=rng.getrandbits(31)))
    if kind != 'model' and n > 1 and rng.random() < 0.25:
      # features that overflowed in a step before
      rng.choice(pool)['bad'] = [rng.randrange(64), rng.randrange(8),
                                 rng.choice(['inf', '-inf', 'nan'])]
    if rng.random() < 0.4 and kind != 'model':
      pool.append(dict(pts=[], cpts=[], fs=0))
    full = range(n)
    two = rng.random() < 0.25 and kind != 'model'
    views = []
    for k in range(rng.randint(2, 4 if slow else 6)):
      m = rng.choice([1, 1, 2, 3, 4, 6 if not slow else 3])
      idx = [rng.randrange(len(pool)) for _ in range(m)]
      if k == 0 or not any(i in full for i in idx):
        idx[rng.randrange(m)] = rng.choice(list(full))
      if s['centers'] == 'other' and not any(pool[i]['cpts'] for i in idx):
        # a cloud has at least one point
        pool[idx[0]]['cpts'] = [list(q) for q in pool[idx[0]]['pts'][:1]]
        if not pool[idx[0]]['cpts']:
          j = rng.choice(list(full))
          idx.append(j)
          pool[j]['cpts'] = pool[j]['cpts'] or [list(pool[j]['pts'][0])]
      v = dict(idx=idx, shuf=rng.getrandbits(31), inner=rng.random() < 0.6,
               rep='padded' if kind == 'model' else
               rng.choice(['padded', 'padded', 'sizes', 'ids', 'ids']),
               mix=rng.random() < 0.7, padf=rng.random() < 0.5,
               extra=rng.choice([0, 0, 3]), fill=rng.choice([0.0, 9.5, -3.0]),
               thread=rng.randrange(2) if two else 0)
      if rng.random() < 0.25:
        v['faults'] = [[rng.choice([rng.randrange(0, 12),
                                    rng.randrange(0, 80),
                                    rng.randrange(0, 500)]),
                        rng.choice(gen.FAULT_KINDS)]]
      views.append(v)
    return dict(prop='C26', seed=seed, fn=s, objects=objs, pool=pool,
                lists=dict(views=views))

  def run(self, plan, sim):
    import tensorflow as tf
    s, pool, views = plan['fn'], plan['pool'], plan['lists']['views']
    if not views:
      raise Skip('no batches')
    w = world.World(sim)
    random.seed(plan['seed'])
    np.random.seed(plan['seed'] % 2**32)
    tf.random.set_seed(plan['seed'] % 2**31)
    for o in plan['objects']:
      w.spec[o['name']] = o
      build = world.BUILD.get(o['t'])
      if build is None:
        from sim.scen_fn import b_model
        build = b_model
      w.real[o['name']], w.model[o['name']] = build(w, o)
    fn = FUNCS[s['kind']]
    seen = {}

    def call(a):
      return split(fn(s, a, w), a)

    def go(t):
      def body(c):
        for k, v in enumerate(views):
          if v['thread'] != t:
            continue
          self.view(sim, s, pool, k, v, call, seen)
      return body
    threads = sorted({v['thread'] for v in views})
    sim.run_clients([go(t) for t in threads])

  def view(self, sim, s, pool, k, v, call, seen):
    try:
      a = Batch(s, pool, v)
    except ValueError as e:
      raise HarnessError(str(e)) from e
    if not len(np.concatenate(a.rows)) or not len(np.concatenate(a.crows)):
      raise Skip('a cloud without points')
    faults = [Fault(p, kind) for p, kind in v.get('faults', ())]
    st, got = sim.call(lambda: call(a), faults)
    text = f"{s['kind']} batch {k} {v['rep']} of elements {v['idx']}"
    if st == 'err' and any(f.fired for f in faults):
      sim.event('failed', k, type(got).__name__)
      sim.probe('failed calls')
      st, got = sim.call(lambda: call(a), ())
    if st == 'err':
      if isinstance(got, Violation):
        raise Violation(got.kind, f'{text}: {got.msg}')
      raise Violation('unexpected-error',
                      f'{text}: {type(got).__name__}: {short(got)}')
    sim.event('res', k, v['idx'])
    sim.ops_ok += 1
    noise = None
    for b, i in enumerate(v['idx']):
      if i not in seen:
        seen[i] = (got[b], text)
        continue
      if pool[i].get('bad'):
        continue
      want, first = seen[i]
      for m, (x, y) in enumerate(zip(want, got[b])):
        sim.checks += 1
        hard, d, why = differ(x, y, None)
        size = max(size_of(x), size_of(y))
        if not hard and d <= 2e-4 * size + 1e-6:
          continue
        if noise is None:
          noise = []
          for q in range(8):
            st, r = sim.call(lambda q=q: call(a.noisy(q)), ())
            if st == 'ok':
              noise.append(r)
          sim.probe('tolerance from noise')
        spread = 0.0
        for r in noise:
          h2, d2, _ = differ(y, r[b][m], None)
          if h2:
            hard, spread = False, np.inf
          spread = max(spread, d2)
        if hard or d > 2e-4 * size + 30 * spread + 1e-6:
          raise Violation(
              'batch-dependent', f'{text}: result {m} of element {i} (place '
              f'{b}) is not the one of {first}: '
              f'{why or f"{d:.3g} apart, size {size:.3g}"}')
