"""C27: arguments mean the same in every form and are taken by value.

The first call of a history passes every argument as a tensor (or a plain
number).  Later calls of the same function pass equal values in other forms
(lists, tuples, arrays of other precision, variables, names in other case, one
value per dimension or one for all); after the objects are built the caller
changes its arguments, then reads what was not computed yet.  Results must be
equal, the arguments untouched, also by calls that fail.
"""
import random

import numpy as np

from sim import gen, world
from sim.core import Fault, Skip, Violation
from sim.scen import conv_spec, scenario, short
from sim.world import npy

KINDS = dict(cloud=3, grid=2, nb=3, pdf=3, dens=2, densnb=2, poisson=2,
             sample=2, avg=2, hier=2, conv=6, pool=3, block=2)
GENERIC = ('tensor', 'np', 'np64', 'list', 'tuple', 'variable')
ONE = ('float', 'np0', 'npf', 'npd', 'tensor0', 'variable0')


def tup(x):
  return tuple(tup(v) for v in x) if isinstance(x, list) else x


class Args:
  """Arguments of one call, in the forms drawn by `rng` (None: as tensors)."""

  def __init__(self, rng):
    self.rng = rng
    self.made = []          # (text, object, copy of its value)

  def keep(self, text, obj):
    self.made.append((text, obj, np.array(npy(obj))))
    return obj

  def form(self, text, v, form):
    import tensorflow as tf
    ints = np.issubdtype(v.dtype, np.integer)
    if form in ('tensor', 'tensor0'):
      return tf.constant(v)
    if form == 'np':
      return self.keep(text, v.copy())
    if form == 'np64':
      return self.keep(text, v.astype(np.int64 if ints else np.float64))
    if form == 'list':
      return self.keep(text, v.tolist())
    if form == 'tuple':
      return tup(v.tolist())
    if form in ('variable', 'variable0'):
      return self.keep(text, tf.Variable(v))
    if form == 'float':
      return int(v) if ints else float(v)
    if form == 'np0':
      return self.keep(text, v.copy())
    if form == 'npf':
      return v.dtype.type(v)
    return np.int64(v) if ints else np.float64(v)

  def array(self, text, v, forms=GENERIC):
    """A tensor of one or more dimensions."""
    v = np.asarray(v)
    if self.rng is None:
      return self.form(text, v, 'tensor')
    return self.form(text, v, self.rng.choice(forms))

  def one(self, text, v):
    """A number."""
    v = np.asarray(v)
    v = v.astype(np.int32 if np.issubdtype(v.dtype, np.integer) else np.float32)
    if self.rng is None:
      return self.form(text, v, 'float')
    return self.form(text, v, self.rng.choice(ONE))

  def dims(self, text, v, D, single=False):
    """A number or one value per dimension."""
    v = np.asarray(v, np.float32)
    if self.rng is None:
      return self.form(text, np.broadcast_to(v, [D]).copy(), 'tensor')
    x = self.rng.random()
    if v.ndim == 0 and x < 0.45:
      return self.one(text, v)
    if v.ndim == 0 and single and x < 0.65:
      return self.array(text, v.reshape([1]))
    return self.array(text, np.broadcast_to(v, [D]).copy())

  def name(self, v):
    """A name that may be written in any case."""
    if self.rng is None:
      return v
    return self.rng.choice([v, v.upper(), v.lower(), v.capitalize()])

  def whole(self, v):
    return int(v)

  def flag(self, v):
    return bool(v)

  def untouched(self):
    for text, obj, want in self.made:
      try:
        got = np.array(npy(obj))
      except ValueError:
        got = None
      if got is None or got.shape != want.shape or got.dtype != want.dtype or \
          not np.array_equal(got, want):
        raise Violation('argument-changed', f'{text} was {want.ravel()[:4]} '
                        f'and is {None if got is None else got.ravel()[:4]}')

  def scramble(self):
    """What a caller may do with its own objects."""
    import tensorflow as tf
    made, self.made = self.made, []
    for _, obj, want in made:
      junk = np.array((want + 1) * 3, want.dtype)
      if isinstance(obj, tf.Variable):
        obj.assign(junk)
      elif isinstance(obj, np.ndarray):
        obj[...] = junk
      else:
        new = junk.tolist()
        if obj and isinstance(obj[0], list):
          for a, b in zip(obj, new):
            a[:] = b
          obj.append([0])
        else:
          obj[:] = new + [0]


# -- functions: built before the yield, read after it -------------------------------------

def cloud(s, a, A, key=''):
  from pylib.pc import PointCloud
  pts = A.array(key + 'points', a[key + 'pts'])
  if key + 'ids' in a:
    return PointCloud(pts, batch_ids=A.array(key + 'batch_ids', a[key + 'ids']),
                      batch_size=A.one('batch_size', s['B']))
  sizes = A.array(key + 'sizes', a[key + 'sizes'])
  if s['bs']:
    return PointCloud(pts, sizes=sizes, batch_size=A.one('batch_size', s['B']))
  return PointCloud(pts, sizes=sizes)


def clouds(s, a, A):
  c = cloud(s, a, A)
  return c, cloud(s, a, A, 'c') if s['centers'] == 'other' else c


def hood(s, a, A, c, z):
  from pylib import pc
  g = pc.Grid(c, A.dims('cell_sizes', s['cells'], s['D'], True))
  kw = dict(max_neighbors=A.whole(s['limit'])) if s['limit'] else {}
  rad = A.dims('radius', s['radii'], s['D'], True)
  if s['nocenters'] and z is c:
    return g, pc.Neighborhood(g, rad, **kw)
  return g, pc.Neighborhood(g, rad, z, **kw)


def f_cloud(s, a, w, A):
  c = cloud(s, a, A)
  if s['shape']:
    c.set_batch_shape(A.array('batch_shape', np.array(s['shape'], np.int32)))
  yield
  out = [c.get_points(), c.get_sizes(),
         c.get_points(max_num_points=A.whole(a['width']))]
  box = c.get_AABB()
  out += [box._aabb_min, box._aabb_max, box.get_diameter()]
  out.append(c.get_unflatten()(A.array('features', a['flat'])))
  out.append(c.get_points(A.array('id', np.zeros(
      len(s['shape']), np.int32)) if s['shape'] else A.whole(0)))
  return out


def f_grid(s, a, w, A):
  from pylib import pc
  c = cloud(s, a, A)
  g = pc.Grid(c, A.dims('cell_sizes', s['cells'], s['D'], True))
  yield
  n = pc.Neighborhood(g, A.dims('radius', s['radii'], s['D'], True))
  return [g._sorted_keys, g._sorted_points, g._sorted_batch_ids, g._num_cells,
          g.get_DS(), n._original_neigh_ids]


def f_nb(s, a, w, A):
  c, z = clouds(s, a, A)
  _, n = hood(s, a, A, c, z)
  yield
  out = [n._original_neigh_ids, n._samples_neigh_ranges,
         n.get_grid()._sorted_points, n.get_grid().get_DS()]
  if not s['limit']:
    t = n.transpose()
    out += [t._original_neigh_ids, t._samples_neigh_ranges]
  return out


def f_pdf(s, a, w, A):
  c, z = clouds(s, a, A)
  _, n = hood(s, a, A, c, z)
  kw = dict(bandwidth=A.dims('bandwidth', s['bw'], s['D']),
            normalize=A.flag(s['norm']))
  if s['twice']:
    n.compute_pdf(**kw)
    yield
    return [n.get_pdf()]
  p = n.get_pdf(**kw)
  yield
  return [p, n.get_pdf(bandwidth=A.dims('bandwidth', s['bw'], s['D']))]


def f_dens(s, a, w, A):
  from pylib.pc.Neighborhood import density_estimation
  c = cloud(s, a, A)
  p = density_estimation(c, bandwidth=A.dims('bandwidth', s['bw'], s['D']),
                         scaling=A.dims('scaling', s['radii'], s['D']),
                         normalize=A.flag(s['norm']))
  yield
  return [p]


def f_densnb(s, a, w, A):
  from pylib.pc.Neighborhood import (compute_neighborhoods,
                                     density_estimation_in_neighborhoods)
  from pylib import pc
  c = cloud(s, a, A)
  g = pc.Grid(c, A.dims('cell_sizes', s['cells'], s['D'], True))
  ids, ranges = compute_neighborhoods(
      g, A.dims('radius', s['radii'], s['D'], True), c, return_ranges=True)
  p = density_estimation_in_neighborhoods(
      c, A.array('neighbors', npy(ids), ('tensor', 'np', 'np64')),
      bandwidth=A.dims('bandwidth', s['bw'], s['D']),
      scaling=A.dims('scaling', s['radii'], s['D']),
      normalize=A.flag(s['norm']))
  yield
  return [ids, ranges, p]


def f_poisson(s, a, w, A):
  from pylib import pc
  c = cloud(s, a, A)
  z, ids = pc.poisson_disk_sampling(
      c, A.dims('radius', s['radii'], s['D'], True), return_ids=True)
  yield
  return [z._points, z._batch_ids, ids, z.get_sizes()]


def f_sample(s, a, w, A):
  from pylib import pc
  c = cloud(s, a, A)
  _, n = hood(dict(s, limit=0, nocenters=True), a, A, c, c)
  z, _ = pc.sample(n, A.name(s['mode']))
  yield
  return [z._points, z._batch_ids, z.get_sizes()]


def f_avg(s, a, w, A):
  from pylib import pc
  c = cloud(s, a, A)
  z = pc.cell_average_sampling(c, A.dims('cell_sizes', s['cells'], s['D'],
                                         True))
  yield
  return [z._points, z._batch_ids, z.get_sizes()]


def f_hier(s, a, w, A):
  from pylib import pc
  c = cloud(s, a, A)
  if A.rng is not None and A.rng.random() < 0.4:
    cells = A.array('cell_sizes', np.repeat(
        np.array(s['levels'], np.float32)[:, None],
        A.rng.choice([1, s['D']]), axis=1))
    own = []
  else:
    cells = own = [A.dims('cell_sizes', x, s['D'], True) for x in s['levels']]
  h = pc.PointHierarchy(c, cells, A.name(s['mode']))
  yield
  del own[:]
  for t in (False, True):
    # lists belong to the caller
    del h.get_neighborhood(transposed=t)[:]
    for r in (h.get_points(), h.get_sizes()):
      del r[:]
  out = []
  for i in range(len(s['levels']) + 1):
    out += [h[i]._points, h[i]._batch_ids]
  return out + list(h.get_sizes()) + list(h.get_points()) + [
      h.get_neighborhood(i=0, transposed=t)._original_neigh_ids
      for t in (False, True)]


def f_conv(s, a, w, A):
  c, z = clouds(s, a, A)
  l, spec = w.r('layer'), w.spec['layer']
  feats = A.array('features', a['feat'])
  kw = dict(return_sorted=A.flag(s['srt']), return_padded=A.flag(s['pad']))
  if spec['lt'] == '1x1':
    r = [l(feats, c, **kw)]
    yield
    return r
  rad = A.one('radius', s['radius'])
  if spec['lt'] == 'kp':
    kw['kernel_influence_dist'] = A.one('kernel_influence_dist', s['infl'])
  else:
    kw['bandwidth'] = A.one('bandwidth', s['bw1'])
  r = [l(feats, c, z, rad, **kw)]
  yield
  if spec['lt'] == 'kp' and spec['deform']:
    r.append(l.regularization_loss())
  return r


def f_pool(s, a, w, A):
  c, z = clouds(s, a, A)
  p = w.r('pool')
  # the result has the type of the features
  feats = A.array('features', a['feat'], ('tensor', 'np', 'variable'))
  if w.spec['pool']['p'] in ('gmax', 'gavg'):
    r = p(feats, c, return_padded=A.flag(s['pad'] and s['input'] == 'padded'))
  else:
    r = p(feats, c, z, A.dims('radius', s['radii'], s['D'], True),
          return_sorted=A.flag(s['srt']), return_padded=A.flag(s['pad']))
  yield
  return [r]


def f_block(s, a, w, A):
  c, z = clouds(s, a, A)
  l, spec = w.r('block'), w.spec['block']
  kw = dict(return_sorted=A.flag(s['srt']), return_padded=A.flag(s['pad']),
            training=False)
  if spec['conv']['lt'] == 'kp':
    kw['kernel_influence_dist'] = A.one('kernel_influence_dist', s['infl'])
  else:
    kw['bandwidth'] = A.one('bandwidth', s['bw1'])
  feats = A.array('features', a['feat'])
  if spec['bt'] == 'spatial':
    r = l(feats, c, z, A.array('radii', np.full([3], s['radius'], np.float32)),
          **kw)
  else:
    r = l(feats, c, A.one('radius', s['radius']), **kw)
  yield
  return [r]


FUNCS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('f_')}


# -- layers ---------------------------------------------------------------------------------

def build(w, o, A):
  """A layer; the arguments of its constructor are changed afterwards."""
  from pylib.pc import layers as L
  if o['t'] == 'pool':
    return world.b_pool(w, o)[0]
  s = o if o['t'] == 'layer' else o['conv']
  kw = {}
  if s['lt'] == 'mc':
    kw = dict(num_mlps=A.whole(s['num_mlps']),
              mlp_size=A.keep('mlp_size', list(s['mlp']))
              if A.rng is None or A.rng.random() < 0.7 else tuple(s['mlp']),
              non_linearity_type=A.name(s['act']))
  elif s['lt'] == 'pc':
    kw = dict(size_hidden=A.whole(s['hidden']),
              non_linearity_type=A.name(s['act']))
  elif s['lt'] == 'kp':
    kw = dict(num_kernel_points=A.whole(s['K']), deformable=A.flag(s['deform']),
              kp_interpolation=s['interp'],
              custom_kernel_points=A.array('kernel points', np.array(
                  s['kernel'], np.float32)))
  if o['t'] == 'layer':
    cin, cout = A.whole(s['cin']), A.whole(s['cout'])
    if s['lt'] == '1x1':
      return L.Conv1x1(cin, cout)
    cls = {'mc': L.MCConv, 'pc': L.PointConv, 'kp': L.KPConv}[s['lt']]
    return cls(cin, cout, num_dims=A.whole(s['D']), **kw)
  kw.update(layer_type=A.name(o['type']), projection_shortcuts=A.flag(o['proj']))
  C, D, n = A.whole(o['C']), A.whole(o['D']), A.whole(o['blocks'])
  if o['bt'] == 'plain':
    return L.PointResNet(C, n, D, **kw)
  if o['bt'] == 'bottle':
    return L.PointResNetBottleNeck(C, A.whole(o['bottle']), n, D, **kw)
  return L.PointResNetSpatialBottleNeck(C, n, D, **kw)


def set_weights(real, o):
  """The same weights for equal layers."""
  if o['t'] == 'layer' and o['lt'] != '1x1':
    world.set_conv(real, o, o['seed'])
  elif o['t'] == 'layer':
    world.assign(real._weights_tf, o['seed'])
    world.assign(real._bias_tf, o['seed'] + 1)
  elif o['t'] == 'block':
    for i, c in enumerate(world.block_convs(real, o)):
      world.set_conv(c, o['conv'], o['seed'] + 1000 * (i + 1))
    rest = list(real._projection_layers) if o['proj'] else []
    if o['bt'] == 'bottle':
      rest += list(real._downsampling_layers) + list(real._upsampling_layers)
    for i, l in enumerate(rest):
      world.assign(l._weights_tf, o['seed'] + 500 + 2 * i)
      world.assign(l._bias_tf, o['seed'] + 501 + 2 * i)


# -- data -----------------------------------------------------------------------------------

def arrays(s, e):
  D, C = s['D'], s['C']
  a = dict(width=max(len(x) for x in e['els']) + s['extra'])
  for key in ('', 'c'):
    els = e[key + 'els']
    flat = np.array([p for x in els for p in x], np.float32).reshape(-1, D)
    n = np.array([len(x) for x in els], np.int32)
    ids = np.repeat(np.arange(len(els)), n).astype(np.int32)
    perm = np.random.RandomState(e['fs'] % 2**31).permutation(len(ids))
    if s['input'] == 'ids':
      a.update({key + 'pts': flat[perm], key + 'ids': ids[perm]})
    elif s['input'] == 'sizes':
      a.update({key + 'pts': flat, key + 'sizes': n})
    else:
      pad = np.full([len(els), max(n) + s['extra'], D], 2.5, np.float32)
      for b, x in enumerate(els):
        if x:
          pad[b, :len(x)] = x
      a.update({key + 'pts': pad, key + 'sizes': n})
  total = sum(len(x) for x in e['els'])
  f = gen.features(e['fs'], total, C)
  a['flat'] = a['feat'] = f
  if s['padded'] and s['input'] != 'ids':
    a['feat'] = np.full([len(e['els']), a['width'], C], -7, np.float32)
    k = 0
    for b, x in enumerate(e['els']):
      a['feat'][b, :len(x)] = f[k:k + len(x)]
      k += len(x)
  return a


def noisy(a, seed):
  r = np.random.RandomState(seed)
  return {k: (v * (1 + r.uniform(-3e-7, 3e-7, v.shape))).astype(np.float32)
          if isinstance(v, np.ndarray) and v.dtype == np.float32 else v
          for k, v in a.items()}


def distance(x, y):
  """Size of the difference, None for another shape."""
  if x.shape != y.shape:
    return None
  if not x.size:
    return 0.0
  x, y = x.astype(float), y.astype(float)
  with np.errstate(invalid='ignore'):
    d = np.where((x == y) | (np.isnan(x) & np.isnan(y)), 0.0, np.abs(x - y))
  return float(np.where(np.isfinite(d), d, np.inf).max())


@scenario('C27')
class C27:

  def gen(self, rng, seed, tier):
    kind = rng.choices(list(KINDS), list(KINDS.values()))[0]
    D = rng.choice([2, 3, 3, 4])
    B = rng.choice([1, 2, 2, 4])
    rad = rng.choice([0.15, 0.25, 0.4, 0.7])

    def per_dim(x, ok=True):
      if ok and rng.random() < 0.5:
        return [gen.f32(x * rng.choice([1.0, 0.7, 1.4])) for _ in range(D)]
      return gen.f32(x)
    radii = per_dim(rad)
    cells = np.asarray(radii) * rng.choice([1.0, 1.0, 1.3])
    s = dict(kind=kind, D=D, B=B, C=rng.choice([1, 2, 3]), radius=gen.f32(rad),
             radii=radii, cells=np.asarray(cells, np.float32).tolist(),
             bw=per_dim(rng.choice([0.2, 0.5, 1.2])),
             bw1=gen.f32(rng.choice([0.2, 0.5])),
             infl=gen.f32(rad * rng.choice([0.5, 1.0])),
             input=rng.choice(['padded', 'sizes', 'ids']),
             centers=rng.choice(['same', 'other']), bs=rng.random() < 0.5,
             nocenters=rng.random() < 0.4, extra=rng.choice([0, 0, 2]),
             limit=rng.choice([0, 0, 3]) if kind == 'nb' else 0,
             norm=rng.random() < 0.4, twice=rng.random() < 0.4,
             mode=rng.choice(['poisson', 'cell average']),
             levels=sorted(gen.f32(x) for x in rng.sample(
                 [0.1, 0.2, 0.35, 0.6], rng.choice([1, 2]))),
             padded=rng.random() < 0.4, srt=rng.random() < 0.3,
             pad=rng.random() < 0.4,
             shape=rng.choice([None, [B], [1, B], [B, 1]]))
    if s['input'] == 'ids' and kind != 'cloud':
      s['shape'] = None
    objs = []
    if kind in ('conv', 'block'):
      C = rng.choice([2, 4])
      o = dict(t='block', name='block', C=C, D=D, blocks=rng.choice([1, 2]),
               bt=rng.choice(['plain', 'bottle', 'spatial']),
               proj=rng.random() < 0.5, seed=rng.getrandbits(28))
      o['bottle'] = rng.choice([2, 4])
      k = o['bottle'] if o['bt'] == 'bottle' else C
      c = conv_spec(rng, D) if kind == 'conv' else conv_spec(
          rng, D, k, k, kinds=('mc', 'pc', 'kp'))
      if c['lt'] == 'kp':
        # kernel points of its own
        r = np.random.RandomState(rng.getrandbits(31))
        c['K'] = rng.choice([3, 5, 8])
        c['kernel'] = [[gen.f32(v) for v in p]
                       for p in r.uniform(-1, 1, size=(c['K'], D))]
        if kind == 'block':
          c['deform'] = False
      if kind == 'conv':
        s['C'] = c['cin']
        objs.append(dict(c, t='layer', name='layer'))
      else:
        s['C'] = C
        o['conv'] = c
        o['type'] = {'mc': 'MCConv', 'pc': 'PointConv',
                     'kp': 'KPConv'}[c['lt']]
        objs.append(o)
    elif kind == 'pool':
      objs.append(dict(t='pool', name='pool',
                       p=rng.choice(['gmax', 'gavg', 'max', 'avg'])))
    n = 6 if kind == 'block' else 14
    els = [gen.points(rng, rng.randint(1, n), D, rng.choice(
        ['uniform', 'cluster']), 1.0) for _ in range(B)]
    els = [[[gen.f32(v) for v in p] for p in x] for x in els]
    if B > 1 and rng.random() < 0.3 and kind != 'cloud':
      els[rng.randrange(B)] = []
    if not any(els):
      els[0] = [[0.5] * D]
    cels = [[[gen.f32(v + rng.uniform(-0.1, 0.1)) for v in p] for p in x
             if rng.random() < 0.7] for x in els]
    if not any(cels):
      cels = [list(x) for x in els]
    calls = []
    for _ in range(rng.randint(2, 4)):
      c = dict(forms=rng.getrandbits(31), change=rng.random() < 0.8,
               fresh=rng.random() < 0.6)
      if rng.random() < 0.25:
        c['faults'] = [[rng.choice([rng.randrange(0, 12),
                                    rng.randrange(0, 60),
                                    rng.randrange(0, 300)]),
                        rng.choice(gen.FAULT_KINDS)]]
      calls.append(c)
    return dict(prop='C27', seed=seed, fn=s, objects=objs,
                data=dict(els=els, cels=cels, fs=rng.getrandbits(31)),
                rs=rng.getrandbits(31), lists=dict(calls=calls))

  def run(self, plan, sim):
    import tensorflow as tf
    s, calls = plan['fn'], plan['lists']['calls']
    if not calls:
      raise Skip('no calls')
    w = world.World(sim)
    np.random.seed(plan['seed'] % 2**32)
    tf.random.set_seed(plan['seed'] % 2**31)
    fn = FUNCS[s['kind']]
    a = arrays(s, plan['data'])

    def make(A):
      for o in plan['objects']:
        w.spec[o['name']] = o
        w.real[o['name']] = real = build(w, o, A)
        A.untouched()
        if A.rng is not None:
          A.scramble()
        if o['t'] == 'block':
          self.first_call(real, o)
        set_weights(real, o)

    def call(a, A, change):
      g = fn(s, a, w, A)
      try:
        next(g)
        A.untouched()
        if change:
          A.scramble()
        next(g)
      except StopIteration as e:
        A.untouched()
        out = e.value
        if change:
          A.scramble()
        return [npy(x) for x in out]

    def attempt(a, A, change, faults=()):
      return sim.call(lambda: call(a, A, change), faults,
                      random.Random(plan['rs']))
    def built(A, text):
      st, e = sim.call(lambda: make(A), (), random.Random(plan['rs']))
      if st == 'err':
        raise Violation('unexpected-error', f'layer built with {text}: '
                        f'{type(e).__name__}: {short(e)}')
    built(Args(None), 'plain arguments')
    st, want = attempt(a, Args(None), False)
    if st == 'err':
      raise Violation('unexpected-error', f"{s['kind']} with tensors: "
                      f'{type(want).__name__}: {short(want)}')
    noise = None
    for k, c in enumerate(calls):
      rng = random.Random(c['forms'])
      if c['fresh'] and plan['objects']:
        built(Args(rng), 'arguments in other forms that changed later')
      faults = [Fault(p, kind) for p, kind in c.get('faults', ())]
      A = Args(rng)
      st, got = attempt(a, A, c['change'], faults)
      if st == 'err' and any(f.fired for f in faults):
        sim.event('failed', k, type(got).__name__)
        sim.probe('failed calls')
        A.untouched()
        rng = random.Random(c['forms'] + 1)
        A = Args(rng)
        st, got = attempt(a, A, c['change'])
      if st == 'err':
        if isinstance(got, Violation):
          raise Violation(got.kind, f"{s['kind']} call {k}: {got.msg}")
        raise Violation('unexpected-error', f"{s['kind']} call {k}: "
                        f'{type(got).__name__}: {short(got)}')
      sim.event('res', k)
      sim.ops_ok += 1
      for i, (x, y) in enumerate(zip(want, got)):
        sim.checks += 1
        d = distance(x, y)
        f = np.abs(x[np.isfinite(x)].astype(float)) if x.size else np.zeros(0)
        size = float(f.max(initial=0.0))
        if d is not None and d <= 1e-4 * size + 1e-6:
          continue
        if noise is None:
          sim.probe('tolerance from noise')
          noise = []
          for q in range(8):
            st, r = attempt(noisy(a, q), Args(None), False)
            if st == 'ok':
              noise.append(r)
        spread = 0.0
        for r in noise:
          d2 = distance(x, r[i])
          spread = np.inf if d2 is None else max(spread, d2)
        if d is None and spread < np.inf or \
            d is not None and d > 1e-4 * size + 30 * spread + 1e-6:
          raise Violation(
              'argument-form', f"{s['kind']} call {k}: result {i} differs from "
              f'the one for tensors: '
              f"{f'shapes {y.shape} and {x.shape}' if d is None else f'{d:.3g} apart, size {size:.3g}'}")

  def first_call(self, real, o):
    """Creates the variables of a block."""
    import tensorflow as tf
    from pylib.pc import PointCloud
    D = o['D']
    one = PointCloud(np.zeros((2, D), np.float32), np.zeros(2, np.int32), 1)
    two = PointCloud(np.zeros((2, D), np.float32), np.zeros(2, np.int32), 1)
    x = tf.ones([2, o['C']])
    kw = {} if o['conv']['lt'] != 'kp' else dict(kernel_influence_dist=1.0)
    if o['bt'] == 'spatial':
      real(x, one, two, [1.0, 1.0, 1.0], training=False, **kw)
    else:
      real(x, one, 1.0, training=False, **kw)
