"""Generators: plans are JSON, everything is drawn from one seeded Random."""
import math
import random

import numpy as np


def f32(x):
  return float(np.float32(x))


def points(rng, n, D, style=None, scale=None, shift=True):
  """n points as lists of float32 values."""
  style = style or rng.choice(['uniform', 'uniform', 'cluster', 'lattice',
                               'line', 'dup', 'flat', 'corner'])
  scale = scale or rng.choice([0.1, 1.0, 1.0, 1.0, 5.0])
  out = []
  if style == 'cluster':
    cs = [[rng.uniform(0, scale) for _ in range(D)]
          for _ in range(rng.randint(1, 3))]
  off = [rng.choice([0.0, 0.0, -0.5, 3.0]) * scale * bool(shift)
         for _ in range(D)]
  flat = rng.randrange(D)
  for i in range(n):
    if style == 'uniform':
      p = [rng.uniform(0, scale) for _ in range(D)]
    elif style == 'cluster':
      c = cs[rng.randrange(len(cs))]
      p = [x + rng.gauss(0, 0.05 * scale) for x in c]
    elif style == 'lattice':
      p = [rng.randint(0, 4) * 0.25 * scale for _ in range(D)]
    elif style == 'line':
      t = rng.uniform(0, scale)
      p = [t] * D
    elif style == 'dup':
      if out and rng.random() < 0.4:
        p = list(out[rng.randrange(len(out))])
        p = [x - o for x, o in zip(p, off)]
      else:
        p = [rng.uniform(0, scale) for _ in range(D)]
    elif style == 'flat':
      p = [rng.uniform(0, scale) for _ in range(D)]
      p[flat] = 0.5 * scale
    else:  # corner
      p = [rng.choice([0.0, scale, rng.uniform(0, scale)]) for _ in range(D)]
    out.append([f32(x + o) for x, o in zip(p, off)])
  return out


def shape_for(rng, B):
  """A batch shape with product B."""
  opts = [[B], [1, B], [B, 1]]
  for k in range(2, B):
    if B % k == 0:
      opts.append([k, B // k])
      opts.append([k, 1, B // k])
  return rng.choice(opts)


def cloud(rng, D=None, nmax=30, kinds=('padded', 'ids', 'sizes'), B=None,
          empty=0.25, style=None, scale=None, nmin=1, big=0.0, shift=True):
  """A cloud spec: how to build it and what it contains.

  `big` is the probability of an unusual size: many points that may all lie
  within a radius, many elements or many dimensions.
  """
  odd = rng.random() < big and rng.choice(['points', 'points', 'B', 'D'])
  D = D or (rng.choice([5, 6]) if odd == 'D' else rng.choice([2, 3, 3, 3, 4]))
  B = B or (rng.choice([8, 9, 12, 17]) if odd == 'B' else
            rng.choice([1, 1, 2, 2, 3, 4, 6]))
  kind = rng.choice(list(kinds))
  n = rng.randint(max(nmin, 1), max(nmin, rng.choice([4, nmax // 2, nmax])))
  if odd == 'points':
    n = rng.randint(70, 180)
    style = style or rng.choice(['cluster', 'uniform', 'line', 'dup'])
  if rng.random() >= empty:
    n = max(n, B)
    sizes = [1] * B
    rest = n - B
  else:
    sizes = [0] * B
    rest = n
  w = [rng.random()**2 + 1e-3 for _ in range(B)]
  if rng.random() < 0.3:
    w = [1.0] * B
  for _ in range(rest):
    x = rng.random() * sum(w)
    for b in range(B):
      x -= w[b]
      if x < 0:
        break
    sizes[b] += 1
  styles = style
  els = []
  sc = scale or rng.choice([0.1, 1.0, 1.0, 1.0, 5.0])
  for b in range(B):
    els.append(points(rng, sizes[b], D, styles, sc, shift))
  spec = dict(kind=kind, D=D, B=B, els=els)
  if kind == 'padded':
    spec['shape'] = shape_for(rng, B)
    spec['extra'] = rng.choice([0, 0, 1, 3])
    spec['nosizes'] = rng.random() < 0.15
    spec['fill'] = rng.choice([0.0, 7.5, -3.0])
    spec['give_batch_size'] = rng.random() < 0.5
    if spec['nosizes']:
      m = max(sizes)
      for b in range(B):
        spec['els'][b] += points(rng, m - sizes[b], D, styles, sc)
      spec['extra'] = 0
  elif kind == 'ids':
    order = [b for b in range(B) for _ in els[b]]
    if rng.random() < 0.75:
      rng.shuffle(order)
    spec['order'] = order
    # a batch size must be given if the last elements are empty
    spec['give_batch_size'] = (not els[-1]) or rng.random() < 0.6
  else:
    spec['sizes_shape'] = rng.choice([None, None, shape_for(rng, B)])
    spec['give_batch_size'] = rng.random() < 0.5
  return spec


def flat_of(spec):
  """(points, ids) in the flat order of the cloud."""
  if spec['kind'] == 'ids':
    nxt = [0] * spec['B']
    pts, ids = [], []
    for b in spec['order']:
      pts.append(spec['els'][b][nxt[b]])
      nxt[b] += 1
      ids.append(b)
  else:
    pts = [p for e in spec['els'] for p in e]
    ids = [b for b, e in enumerate(spec['els']) for _ in e]
  return (np.array(pts, np.float32).reshape(-1, spec['D']),
          np.array(ids, np.int64))


def model_cloud(spec):
  from sim.model import MCloud
  pts, ids = flat_of(spec)
  if spec['kind'] == 'padded':
    return MCloud(pts, ids, spec['B'], list(spec['shape']),
                  width=width_of(spec))
  if spec['kind'] == 'sizes':
    return MCloud(pts, ids, spec['B'], None, sizes_shape=spec['sizes_shape'])
  return MCloud(pts, ids, spec['B'], None)


def width_of(spec):
  return max([len(e) for e in spec['els']] + [1]) + spec.get('extra', 0)


def cloud_args(spec):
  """Keyword arguments of the constructor."""
  pts, ids = flat_of(spec)
  D, B = spec['D'], spec['B']
  kw = {}
  if spec['kind'] == 'padded':
    V = width_of(spec)
    arr = np.full((B, V, D), spec['fill'], np.float32)
    for b, e in enumerate(spec['els']):
      if e:
        arr[b, :len(e)] = np.array(e, np.float32)
    kw['points'] = arr.reshape(tuple(spec['shape']) + (V, D))
    if not spec['nosizes'] or any(len(e) != V for e in spec['els']):
      kw['sizes'] = np.array([len(e) for e in spec['els']],
                             np.int32).reshape(spec['shape'])
  elif spec['kind'] == 'ids':
    kw['points'] = pts
    kw['batch_ids'] = ids.astype(np.int32)
  else:
    kw['points'] = pts
    s = np.array([len(e) for e in spec['els']], np.int32)
    if spec['sizes_shape'] is not None:
      s = s.reshape(spec['sizes_shape'])
    kw['sizes'] = s
  if spec.get('give_batch_size'):
    kw['batch_size'] = B
  return kw


def build_cloud(spec):
  from pylib.pc import PointCloud
  return PointCloud(**cloud_args(spec))


def features(seed, n, C, ints=False):
  r = np.random.RandomState(seed % (2**32))
  if ints:
    return r.randint(-8, 9, size=(n, C)).astype(np.float32)
  return r.uniform(-1, 1, size=(n, C)).astype(np.float32)


def radius_for(rng, mcloud, frac=None):
  """A radius in proportion to the extent of the cloud."""
  lo, hi = mcloud.aabb()
  ext = np.nanmax(hi - lo) if mcloud.N else 1.0
  if not ext > 0:
    ext = 1.0
  f = frac or rng.choice([0.1, 0.2, 0.3, 0.5, 0.9, 1.5])
  return f32(max(f * ext * rng.uniform(0.8, 1.2), 1e-2))


def sched(rng, nclients):
  if nclients <= 1:
    return dict(seed=0, p=0.0, lines=False)
  return dict(seed=rng.getrandbits(32),
              p=rng.choice([0.02, 0.1, 0.3, 0.7]),
              lines=rng.random() < 0.5)


OPS_PER_CALL = dict(nb=220, nb_func=200, grid=90, grid_ds=50, poisson=300,
                    sample=200, cellavg=240, pdf_compute=150, pdf_get=150,
                    density=280, density_nb=290, density_grad=400, basis=60,
                    transpose2=350, t_pdf=350, transpose=200, hier=900,
                    h_nb=250, h_shape=60, h_points=40, conv=350, pool=300,
                    block=1000, kp_loss=20, grad=500)


def fault_pos(rng, op=None):
  """Position of a failing operation inside a call, early ones more often."""
  n = OPS_PER_CALL.get(op, 15)
  if rng.random() < 0.3:
    n = min(n, 12)
  return int(n * rng.random() ** 1.5)


FAULT_KINDS = ['oom', 'internal', 'cancelled', 'memory']
