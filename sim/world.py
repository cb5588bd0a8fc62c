"""Objects of a simulated session and the operations clients perform on them.

`build(world, obj)` creates a real object next to its model, `execute(world,
op)` performs an operation through the public API and returns a tree of numpy
arrays.  Expected values live in expect.py.
"""
import numpy as np

from sim import gen
from sim import model as M
from sim.core import HarnessError


def npy(x):
  """Tree of numpy arrays."""
  if x is None or isinstance(x, (bool, int, float, str)):
    return x
  if isinstance(x, (list, tuple)):
    return [npy(v) for v in x]
  if isinstance(x, dict):
    return {k: npy(v) for k, v in x.items()}
  return np.asarray(x)


def digest_tree(x):
  if isinstance(x, dict):
    return '{' + ','.join(f'{k}:{digest_tree(v)}'
                          for k, v in sorted(x.items())) + '}'
  if isinstance(x, (list, tuple)):
    return '[' + ','.join(digest_tree(v) for v in x) + ']'
  if isinstance(x, np.ndarray):
    import hashlib
    return f'{x.dtype}{x.shape}' + hashlib.sha1(
        np.ascontiguousarray(x).tobytes()).hexdigest()[:10]
  return repr(x)


def tree_close(a, b, rtol=1e-5, atol=1e-6):
  """None if equal, else a description."""
  if isinstance(a, dict):
    if not isinstance(b, dict) or a.keys() != b.keys():
      return 'different fields'
    for k in a:
      d = tree_close(a[k], b[k], rtol, atol)
      if d:
        return f'{k}: {d}'
    return None
  if isinstance(a, (list, tuple)):
    if not isinstance(b, (list, tuple)) or len(a) != len(b):
      return f'lengths {len(a)} and {len(b) if hasattr(b, "__len__") else b}'
    for i, (x, y) in enumerate(zip(a, b)):
      d = tree_close(x, y, rtol, atol)
      if d:
        return f'[{i}] {d}'
    return None
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
      return f'shapes {a.shape} and {b.shape}'
    if a.dtype.kind in 'fc':
      ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
      same_inf = np.isinf(a) & np.isinf(b) & (np.sign(a) == np.sign(b))
      ok = ok | same_inf
    else:
      ok = a == b
    if not np.all(ok):
      i = tuple(int(v) for v in np.argwhere(~ok)[0])
      return f'at {i}: {a[i]} and {b[i]} ({int((~ok).sum())} entries differ)'
    return None
  return None if a == b else f'{a!r} and {b!r}'


class World:

  def __init__(self, sim, backend='tf'):
    self.sim = sim
    self.real = {}
    self.model = {}
    self.spec = {}

  def add(self, name, spec):
    """Builds an object."""
    self.spec[name] = spec
    self.real[name], self.model[name] = BUILD[spec['t']](self, spec)
    return self.real[name]

  def r(self, name):
    return self.real[name]

  def m(self, name):
    return self.model[name]


# -- builders: return (real, model) --------------------------------------------

def b_cloud(w, s):
  return gen.build_cloud(s), gen.model_cloud(s)


def b_grid(w, s):
  from pylib.pc import Grid
  return Grid(w.r(s['cloud']), cells_arg(s['cells'])), dict(
      cloud=s['cloud'], cells=full(s['cells'], w.m(s['cloud']).D))


def cells_arg(c):
  return np.array(c, np.float32) if isinstance(c, list) else c


def full(c, D):
  """Per dimension values of a scalar, one element list or full list."""
  c = np.atleast_1d(np.array(c, np.float32)).astype(np.float64)
  if len(c) < D:
    c = np.concatenate([c, np.repeat(c[-1:], D - len(c))])
  return c


def b_nb(w, s):
  from pylib.pc import Neighborhood
  kw = {}
  if s.get('max'):
    kw['max_neighbors'] = s['max']
  real = Neighborhood(w.r(s['grid']), cells_arg(s['radius']),
                      w.r(s['centers']) if s.get('centers') else None, **kw)
  g = w.m(s['grid'])
  return real, dict(grid=s['grid'], cloud=g['cloud'], centers=s.get('centers'),
                    radius=full(s['radius'], w.m(g['cloud']).D), pdf=None,
                    max=s.get('max', 0))


def b_hier(w, s):
  from pylib.pc import PointHierarchy
  real = PointHierarchy(w.r(s['cloud']), [cells_arg(c) for c in s['cells']],
                        s['mode'])
  return real, dict(cloud=s['cloud'], cells=s['cells'], mode=s['mode'])


def assign(var, seed, lo=-1.0, hi=1.0):
  r = np.random.RandomState(seed % (2**32))
  val = r.uniform(lo, hi, size=tuple(var.shape)).astype(np.float32)
  var.assign(val)
  return val


def conv_kwargs(s):
  t = s['lt']
  if t == 'mc':
    return dict(num_mlps=s['num_mlps'], mlp_size=list(s['mlp']),
                non_linearity_type=s['act'])
  if t == 'pc':
    return dict(size_hidden=s['hidden'], non_linearity_type=s['act'])
  kw = dict(num_kernel_points=s['K'], deformable=s['deform'],
            kp_interpolation=s['interp'])
  if s.get('kernel') is not None:
    kw['custom_kernel_points'] = np.array(s['kernel'], np.float32)
  return kw


def set_conv(real, s, seed):
  """Gives the layer weights of the simulator, returns the model weights."""
  t = s['lt']
  if t == 'mc':
    W = [assign(v, seed + i) for i, v in enumerate(real._weights_tf)]
    B = [assign(v, seed + 50 + i) for i, v in enumerate(real._bias_tf)]
    F = assign(real._final_weights_tf, seed + 99)
    return dict(weights=W, bias=B, final=F, act=s['act'])
  if t == 'pc':
    A = assign(real._basis_axis_tf, seed)
    b = assign(real._basis_bias_tf, seed + 1)
    F = assign(real._weights, seed + 2)
    P = [assign(v, seed + 3 + i, 0.2, 1.0)
         for i, v in enumerate(real._weights_pdf)]
    Q = [assign(v, seed + 5 + i, 0.1, 0.5)
         for i, v in enumerate(real._biases_pdf)]
    return dict(axis=A, bias=b, weights=F, wpdf=P, bpdf=Q, act=s['act'])
  F = assign(real._weights, seed)
  m = dict(weights=F, interp=s['interp'])
  if s['deform']:
    top = 0.0 if s.get('still') else 0.3
    m['offsets'] = assign(real._kernel_offsets_weights, seed + 1, -top, top)
  if s.get('kernel') is not None:
    # kernel points are moved from the unit sphere to radius 0.75
    m['kernel'] = np.array(s['kernel'], np.float32) * np.float32(0.75)
  else:
    m['kernel'] = np.asarray(real._kernel_points)
  return m


def b_layer(w, s):
  from pylib.pc import layers as L
  t = s['lt']
  if t == '1x1':
    real = L.Conv1x1(s['cin'], s['cout'])
    return real, dict(W=assign(real._weights_tf, s['seed']),
                      b=assign(real._bias_tf, s['seed'] + 1))
  cls = {'mc': L.MCConv, 'pc': L.PointConv, 'kp': L.KPConv}[t]
  real = cls(s['cin'], s['cout'], num_dims=s['D'], **conv_kwargs(s))
  return real, set_conv(real, s, s['seed'])


def b_pool(w, s):
  from pylib.pc import layers as L
  cls = {'gmax': L.GlobalMaxPooling, 'gavg': L.GlobalAveragePooling,
         'max': L.MaxPooling, 'avg': L.AveragePooling}[s['p']]
  return cls(), dict(p=s['p'])


def block_convs(real, s):
  if s['bt'] == 'spatial':
    return [c for i in range(s['blocks'])
            for c in (real._downsampling_layers[i], real._conv_layers[i],
                      real._upsampling_layers[i])]
  return list(real._conv_layers)


def b_block(w, s):
  """A residual block; its first call creates the normalisation variables."""
  import tensorflow as tf
  from pylib.pc import layers as L
  from pylib.pc import PointCloud
  kw = conv_kwargs(s['conv'])
  kw.update(layer_type=s['type'], projection_shortcuts=s['proj'])
  C, D = s['C'], s['D']
  if s['bt'] == 'plain':
    real = L.PointResNet(C, s['blocks'], D, **kw)
  elif s['bt'] == 'bottle':
    real = L.PointResNetBottleNeck(C, s['bottle'], s['blocks'], D, **kw)
  else:
    real = L.PointResNetSpatialBottleNeck(C, s['blocks'], D, **kw)
  one = PointCloud(np.zeros((2, D), np.float32), np.zeros(2, np.int32), 1)
  two = PointCloud(np.zeros((2, D), np.float32), np.zeros(2, np.int32), 1)
  x = tf.ones([2, C])
  call = {} if s['conv']['lt'] != 'kp' else dict(kernel_influence_dist=1.0)
  if s['bt'] == 'spatial':
    real(x, one, two, [1.0, 1.0, 1.0], training=False, **call)
  else:
    real(x, one, 1.0, training=False, **call)
  seed = s['seed']
  m = dict(conv=[], bn=[], proj=[], up=[], down=[])
  for i, c in enumerate(block_convs(real, s)):
    m['conv'].append(set_conv(c, s['conv'], seed + 1000 * (i + 1)))
  for i, bn in enumerate(real._batch_norm_layers):
    k = seed + 31 * i + 7
    m['bn'].append(dict(gamma=assign(bn.gamma, k, 0.5, 1.5),
                        beta=assign(bn.beta, k + 1),
                        mean=assign(bn.moving_mean, k + 2),
                        var=assign(bn.moving_variance, k + 3, 0.5, 2.0),
                        mom=bn.momentum, eps=bn.epsilon))

  def lin(layers, key, off):
    for i, l in enumerate(layers):
      m[key].append((assign(l._weights_tf, seed + off + 2 * i),
                     assign(l._bias_tf, seed + off + 2 * i + 1)))
  if s['proj']:
    lin(real._projection_layers, 'proj', 500)
  if s['bt'] == 'bottle':
    lin(real._downsampling_layers, 'down', 600)
    lin(real._upsampling_layers, 'up', 700)
  return real, m


BUILD = dict(cloud=b_cloud, grid=b_grid, nb=b_nb, hier=b_hier, layer=b_layer,
             pool=b_pool, block=b_block)


# -- operations -----------------------------------------------------------------

OPS = {}


def op(fn):
  OPS[fn.__name__] = fn
  return fn


def prepare(w, o):
  """A thunk performing the operation (arguments are built outside of it)."""
  return OPS[o['op']](w, o)


@op
def points(w, o):
  c = w.r(o['c'])
  kw = {}
  if o.get('max') is not None:
    kw['max_num_points'] = o['max']
  if o.get('id') is not None:
    ident = o['id']
    return lambda: npy(c.get_points(ident if isinstance(ident, int)
                                    else list(ident)))
  return lambda: npy(c.get_points(**kw))


@op
def sizes(w, o):
  c = w.r(o['c'])
  return lambda: npy(c.get_sizes())


@op
def unflatten(w, o):
  c, m = w.r(o['c']), w.m(o['c'])
  data = gen.features(o['f'], m.N, o['C'])
  kw = {}
  if o.get('max') is not None:
    kw['max_num_points'] = o['max']
  return lambda: npy(c.get_unflatten(**kw)(data))


def flat_feats(w, cloud, o):
  m = w.m(cloud)
  return gen.features(o['f'], m.N, o['C'])


def feats_arg(w, cloud, o):
  """Flat or padded features as the caller would pass them."""
  import tensorflow as tf
  data = flat_feats(w, cloud, o)
  if o.get('padded'):
    m = w.m(cloud)
    data = m.pad(data, int(m.counts().max()) + o.get('extra', 0))
  return tf.constant(data)


@op
def flatten(w, o):
  """Padding of features and flattening them again."""
  from pylib.pc.utils import _flatten_features
  c = w.r(o['c'])
  o = dict(o, padded=True)
  arg = feats_arg(w, o['c'], o)
  return lambda: npy(_flatten_features(arg, c))


@op
def aabb(w, o):
  c = w.r(o['c'])

  def go():
    b = c.get_AABB()
    return dict(lo=npy(b._aabb_min), hi=npy(b._aabb_max))
  return go


@op
def diameter(w, o):
  c = w.r(o['c'])
  ordv = np.inf if o['ord'] == 'inf' else o['ord']
  return lambda: npy(c.get_AABB().get_diameter(ord=ordv))


@op
def set_shape(w, o):
  c = w.r(o['c'])
  return lambda: c.set_batch_shape(o['shape'])


def grid_result(g):
  return dict(keys=npy(g._cur_keys), skeys=npy(g._sorted_keys),
              idx=npy(g._sorted_indices), pts=npy(g._sorted_points),
              ids=npy(g._sorted_batch_ids), num=npy(g._num_cells))


@op
def grid(w, o):
  from pylib.pc import Grid
  c = w.r(o['c'])
  cells = cells_arg(o['cells'])

  def go():
    g = Grid(c, cells)
    res = grid_result(g)
    if o.get('ds'):
      res['ds'] = npy(g.get_DS())
    return res
  return go


@op
def grid_read(w, o):
  g = w.r(o['g'])
  return lambda: grid_result(g)


@op
def grid_ds(w, o):
  g = w.r(o['g'])
  return lambda: npy(g.get_DS())


def nb_result(n):
  return dict(ranges=npy(n._samples_neigh_ranges), nb=npy(n._neighbors),
              orig=npy(n._original_neigh_ids),
              cpts=npy(n._point_cloud_sampled._points),
              cids=npy(n._point_cloud_sampled._batch_ids),
              spts=npy(n._grid._sorted_points),
              sidx=npy(n._grid._sorted_indices))


@op
def nb(w, o):
  """A new neighborhood on an existing grid."""
  from pylib.pc import Neighborhood
  g = w.r(o['g'])
  ctr = w.r(o['centers']) if o.get('centers') else None
  kw = {'max_neighbors': o['max']} if o.get('max') else {}
  rad = cells_arg(o['radius'])
  return lambda: nb_result(Neighborhood(g, rad, ctr, **kw))


@op
def nb_read(w, o):
  n = w.r(o['n'])
  return lambda: nb_result(n)


@op
def nb_func(w, o):
  """The functional form of the search."""
  from pylib.pc.Neighborhood import compute_neighborhoods
  g = w.r(o['g'])
  ctr = w.r(o['centers']) if o.get('centers') else None
  kw = {'max_neighbors': o['max']} if o.get('max') else {}
  rad = cells_arg(o['radius'])

  def go():
    res = compute_neighborhoods(g, rad, ctr, return_ranges=True,
                                return_sorted_ids=bool(o.get('sorted')), **kw)
    return dict(nb=npy(res[0]), ranges=npy(res[1]))
  return go


def kde(o):
  from pylib.pc import KDEMode
  return KDEMode.no_pdf if o.get('nopdf') else KDEMode.constant


@op
def pdf_compute(w, o):
  n = w.r(o['n'])

  def go():
    n.compute_pdf(bandwidth=cells_arg(o['bw']), mode=kde(o),
                  normalize=bool(o.get('norm')))
    return npy(n.get_pdf())
  return go


@op
def pdf_get(w, o):
  n = w.r(o['n'])
  if o.get('bw') is None:
    return lambda: npy(n.get_pdf())
  return lambda: npy(n.get_pdf(bandwidth=cells_arg(o['bw']), mode=kde(o),
                               normalize=bool(o.get('norm'))))


@op
def transpose2(w, o):
  """The transpose and the transpose of it."""
  n = w.r(o['n'])

  def go():
    t = n.transpose()
    return dict(t=nb_result(t), tt=nb_result(t.transpose()),
                again=nb_result(n.transpose()))
  return go


@op
def t_pdf(w, o):
  """Density of the transposed neighborhood."""
  n = w.r(o['n'])
  kw = {}
  if o.get('bw') is not None:
    kw = dict(bandwidth=cells_arg(o['bw']), mode=kde(o),
              normalize=bool(o.get('norm')))

  def go():
    t = n.transpose()
    if o.get('compute'):
      t.compute_pdf(**kw)
      kw2 = {}
    else:
      kw2 = kw
    return dict(pdf=npy(t.get_pdf(**kw2)), orig=npy(t._original_neigh_ids))
  return go


@op
def density(w, o):
  from pylib.pc.Neighborhood import density_estimation
  c = w.r(o['c'])
  return lambda: npy(density_estimation(
      c, bandwidth=cells_arg(o['bw']), scaling=cells_arg(o['radius']),
      mode=kde(o), normalize=bool(o.get('norm'))))


@op
def density_nb(w, o):
  from pylib.pc.Neighborhood import density_estimation_in_neighborhoods
  n = w.r(o['n'])
  c = n._grid._point_cloud
  return lambda: npy(density_estimation_in_neighborhoods(
      c, n._original_neigh_ids, bandwidth=cells_arg(o['bw']),
      scaling=cells_arg(o['radius']), mode=kde(o),
      normalize=bool(o.get('norm'))))


@op
def density_grad(w, o):
  """Gradient of a weighted sum of densities."""
  import tensorflow as tf
  from pylib.pc import PointCloud
  from pylib.pc.Neighborhood import density_estimation
  m = w.m(o['c'])
  up = gen.features(o['f'], m.N, 1)[:, 0]
  pts = tf.constant(m.pts)
  ids = m.ids.astype(np.int32)

  def go():
    with tf.GradientTape() as t:
      t.watch(pts)
      c = PointCloud(pts, batch_ids=ids, batch_size=m.B)
      d = density_estimation(c, bandwidth=cells_arg(o['bw']),
                             scaling=cells_arg(o['radius']))
      loss = tf.reduce_sum(d * up)
    g = t.gradient(loss, pts)
    if isinstance(g, tf.IndexedSlices):
      g = tf.convert_to_tensor(g)
    return npy(g)
  return go


@op
def basis(w, o):
  import tensorflow as tf
  from pylib.pc.custom_ops import basis_proj
  n = w.r(o['n'])
  m = w.m(w.m(o['n'])['cloud'])
  M_ = int(n._neighbors.shape[0])
  b = tf.constant(gen.features(o['b'], M_, o['H']))
  f = tf.constant(gen.features(o['f'], m.N, o['C']))
  nc = int(n._point_cloud_sampled._points.shape[0])
  up = gen.features(o['u'], nc, o['C'] * o['H']).reshape(nc, o['C'], o['H'])
  if not o.get('grad'):
    return lambda: dict(out=npy(basis_proj(b, f, n)))

  def go():
    with tf.GradientTape() as t:
      t.watch([b, f])
      out = basis_proj(b, f, n)
      loss = tf.reduce_sum(out * up)
    gb, gf = t.gradient(loss, [b, f])
    if isinstance(gf, tf.IndexedSlices):
      gf = tf.convert_to_tensor(gf)
    return dict(out=npy(out), gb=npy(gb), gf=npy(gf))
  return go


def cloud_result(c):
  return dict(pts=npy(c._points), ids=npy(c._batch_ids),
              sizes=npy(c.get_sizes()))


@op
def sample(w, o):
  from pylib.pc import sample as f
  n = w.r(o['n'])

  def go():
    c, idx = f(n, o['mode'])
    return dict(cloud_result(c), idx=npy(idx))
  return go


@op
def poisson(w, o):
  from pylib.pc import poisson_disk_sampling as f
  if o.get('n'):
    n = w.r(o['n'])
    c = n._grid._point_cloud
    kw = dict(neighborhood=n)
  else:
    c = w.r(o['c'])
    kw = dict(radius=cells_arg(o['radius']))

  def go():
    res = f(c, return_ids=bool(o.get('ret')), **kw)
    if o.get('ret'):
      return dict(cloud_result(res[0]), idx=npy(res[1]))
    return dict(cloud_result(res), idx=None)
  return go


@op
def cellavg(w, o):
  from pylib.pc import cell_average_sampling as f
  if o.get('g'):
    g = w.r(o['g'])
    c = g._point_cloud
    kw = dict(grid=g)
  else:
    c = w.r(o['c'])
    kw = dict(cell_sizes=cells_arg(o['cells']))
  return lambda: dict(cloud_result(f(c, **kw)), idx=None)


# hierarchy

@op
def h_points(w, o):
  h = w.r(o['h'])
  kw = {}
  if o.get('id') is not None:
    kw['batch_id'] = o['id'] if isinstance(o['id'], int) else list(o['id'])
  if o.get('max') is not None:
    kw['max_num_points'] = o['max']
  return lambda: [npy(x) for x in h.get_points(**kw)]


@op
def h_sizes(w, o):
  h = w.r(o['h'])
  return lambda: [npy(x) for x in h.get_sizes()]


@op
def h_levels(w, o):
  h = w.r(o['h'])

  def go():
    n = len(h)
    return dict(n=n, pts=[npy(h[i]._points) for i in range(n)],
                ids=[npy(h[i]._batch_ids) for i in range(n)])
  return go


@op
def h_shape(w, o):
  h = w.r(o['h'])
  return lambda: h.set_batch_shape(o['shape'])


@op
def h_nb(w, o):
  h = w.r(o['h'])
  tr = bool(o.get('tr'))
  if o.get('i') is None:
    return lambda: [nb_result(x) for x in h.get_neighborhood(transposed=tr)]
  return lambda: nb_result(h.get_neighborhood(o['i'], transposed=tr))


@op
def hier(w, o):
  from pylib.pc import PointHierarchy
  c = w.r(o['c'])
  cells = [cells_arg(x) for x in o['cells']]

  def go():
    h = PointHierarchy(c, cells, o['mode'])
    n = len(h)
    return dict(n=n, pts=[npy(h[i]._points) for i in range(n)],
                ids=[npy(h[i]._batch_ids) for i in range(n)],
                sizes=[npy(x) for x in h.get_sizes()])
  return go


# layers

@op
def conv(w, o):
  l, s = w.r(o['l']), w.spec[o['l']]
  arg = feats_arg(w, o['cin'], o)
  fmt = dict(return_sorted=bool(o.get('srt')), return_padded=bool(o.get('pad')))
  ci = w.r(o['cin'])
  if s['lt'] == '1x1':
    return lambda: npy(l(arg, ci, **fmt))
  co = w.r(o['cout'])
  kw = dict(fmt)
  if o.get('n'):
    kw['neighborhood'] = w.r(o['n'])
  if s['lt'] == 'kp':
    kw['kernel_influence_dist'] = o['infl']
  else:
    kw['bandwidth'] = o['bw']
  return lambda: npy(l(arg, ci, co, o['radius'], **kw))


@op
def kp_loss(w, o):
  l = w.r(o['l'])
  return lambda: npy(l.regularization_loss())


@op
def pool(w, o):
  p = w.r(o['p'])
  arg = feats_arg(w, o['cin'], o)
  ci = w.r(o['cin'])
  if w.m(o['p'])['p'] in ('gmax', 'gavg'):
    return lambda: npy(p(arg, ci, return_padded=bool(o.get('pad'))))
  co = w.r(o['cout'])
  rad = cells_arg(o['radius'])
  return lambda: npy(p(arg, ci, co, rad, return_sorted=bool(o.get('srt')),
                       return_padded=bool(o.get('pad'))))


# residual blocks and kernel points

@op
def block(w, o):
  l, s = w.r(o['b']), w.spec[o['b']]
  arg = feats_arg(w, o['cin'], o)
  ci = w.r(o['cin'])
  kw = dict(return_sorted=bool(o.get('srt')),
            return_padded=bool(o.get('pad')), training=bool(o.get('train')))
  if s['conv']['lt'] == 'kp':
    kw['kernel_influence_dist'] = o['infl']
  else:
    kw['bandwidth'] = o['bw']
  if s['bt'] == 'spatial':
    if o.get('ns'):
      kw['neighborhoods'] = [w.r(n) for n in o['ns']]
    co = w.r(o['cdown'])
    return lambda: npy(l(arg, ci, co, np.array(o['radii'], np.float32), **kw))
  if o.get('ns'):
    kw['neighborhood'] = w.r(o['ns'][0])
  return lambda: npy(l(arg, ci, o['radii'][0], **kw))


@op
def kernel(w, o):
  from pylib.pc.layers.utils import spherical_kernel_points
  return lambda: npy(spherical_kernel_points(o['K'], o['rot']))


@op
def kp_default(w, o):
  from pylib.pc import layers as L

  def go():
    l = L.KPConv(o['cin'], o['cout'], num_dims=3, num_kernel_points=o['K'],
                 deformable=o['deform'])
    return dict(pts=npy(l._kernel_points), w=list(l._weights.shape))
  return go


@op
def rotate(w, o):
  from pylib.pc.layers.utils import random_rotation
  pts = gen.features(o['f'], o['N'], 3)
  return lambda: npy(random_rotation(pts))
