"""C22: compiled functions against eager calls, over histories of calls.

A run has one function that builds clouds, neighborhoods, layers, ... from its
arguments and one compiled form of it with unknown dimensions, as the models of
the repository are used.  Compiled and eager calls with different data follow
each other, some of them fail while the graph is traced or executed; every
result is compared with the eager result of a twin (same weights) that never
saw a failure or a graph.
"""
import ast
import os
import random

import numpy as np

from sim import core, gen, world
from sim.core import Fault, HarnessError, Skip, Violation, is_injected
from sim.scen import conv_spec, scenario, short
from sim.world import digest_tree, npy, tree_close

_installed = False


def install_trace_seam():
  """Building an operation of a graph is a point that can fail."""
  global _installed
  if _installed:
    return
  _installed = True
  from tensorflow.python.framework import func_graph
  cls = func_graph.FuncGraph
  orig = cls._create_op_internal

  def create(self, op_type, *args, **kw):
    sim, me = core.CUR, core.current()
    if sim is not None and me is not None and me.active:
      sim.point('trace:' + op_type)
    return orig(self, op_type, *args, **kw)
  cls._create_op_internal = create


# -- functions ---------------------------------------------------------------------

def clouds(s, a):
  """The clouds of the arguments: input and centers."""
  from pylib.pc import PointCloud
  if s['input'] == 'ids':
    c = PointCloud(a['pts'], batch_ids=a['ids'], batch_size=s['B'])
  else:
    c = PointCloud(a['pts'], sizes=a['sizes'], batch_size=s['B'])
  if s['centers'] == 'same':
    return c, c
  if s['input'] == 'ids':
    z = PointCloud(a['cpts'], batch_ids=a['cids'], batch_size=s['B'])
  else:
    z = PointCloud(a['cpts'], sizes=a['csizes'], batch_size=s['B'])
  return c, z


def hood(s, c, z):
  from pylib import pc
  g = pc.Grid(c, np.full([s['D']], s['cell'], np.float32))
  if z is c and s.get('nocenters'):
    return g, pc.Neighborhood(g, s['radius'])
  return g, pc.Neighborhood(g, s['radius'], z)


def f_cloud(s, a, w):
  c, _ = clouds(s, a)
  out = [c._points, c.get_points(), c.get_sizes()]
  unflatten = c.get_unflatten()
  out.append(unflatten(a['feat'] * 1.0))
  return out


def f_box(s, a, w):
  from pylib import pc
  c, _ = clouds(s, a)
  box = pc.AABB(c)
  return [box._aabb_min, box._aabb_max, box.get_diameter(ord=s['ord'])]


def f_grid(s, a, w):
  c, z = clouds(s, a)
  from pylib import pc
  g = pc.Grid(c, np.full([s['D']], s['cell'], np.float32))
  return [g._sorted_keys, g._sorted_points, g._sorted_batch_ids,
          g._sorted_indices, g._num_cells, g.get_DS()]


def f_nb(s, a, w):
  c, z = clouds(s, a)
  g, n = hood(s, c, z)
  out = [n._original_neigh_ids, n._samples_neigh_ranges, n.get_grid()._sorted_points]
  if s['transpose']:
    t = n.transpose()
    out += [t._original_neigh_ids, t._samples_neigh_ranges]
  return out


def f_pdf(s, a, w):
  from pylib import pc
  c, z = clouds(s, a)
  _, n = hood(s, c, z)
  bw = s['bw'] if not s['list'] else np.full([s['D']], s['bw'], np.float32)
  mode = pc.KDEMode.constant if s['mode'] == 0 else pc.KDEMode.num_points
  first = n.get_pdf(bandwidth=bw, mode=mode, normalize=s['norm'])
  n.compute_pdf(bandwidth=s['bw'] * 0.5, normalize=False)
  return [first, n.get_pdf()]


def f_avg(s, a, w):
  from pylib.pc import sampling
  c, _ = clouds(s, a)
  z = sampling.cell_average_sampling(
      c, np.full([s['D']], s['radius'], np.float32))
  z = z[0] if isinstance(z, (list, tuple)) else z
  return [z._points, z._batch_ids, z.get_sizes()]


def f_hier(s, a, w):
  from pylib import pc
  c, _ = clouds(s, a)
  h = pc.PointHierarchy(c, np.array(s['levels'], np.float32).reshape(-1, 1),
                        'cell average')
  out = []
  for i in range(len(s['levels']) + 1):
    out += [h[i]._points, h[i]._batch_ids]
  for r in (h.get_sizes(), h.get_points()):
    out += list(r) if isinstance(r, (list, tuple)) else [r]
  return out


def f_conv(s, a, w):
  c, z = clouds(s, a)
  l, spec = w.r('layer'), w.spec['layer']
  feats = a['feat']
  flags = dict(return_sorted=s['srt'], return_padded=s['pad'])
  if spec['lt'] == '1x1':
    return [l(feats, c, **flags)]
  kw = dict(flags)
  if s['given']:
    kw['neighborhood'] = hood(s, c, z)[1]
  if spec['lt'] == 'kp':
    kw['kernel_influence_dist'] = s['radius']
  else:
    kw['bandwidth'] = s['bw']
  out = [l(feats, c, z, s['radius'], **kw)]
  if spec['lt'] == 'kp' and spec['deform']:
    out.append(l.regularization_loss())
  return out


def f_pool(s, a, w):
  c, z = clouds(s, a)
  p = w.r('pool')
  if w.spec['pool']['p'] in ('gmax', 'gavg'):
    # flat points with ids have no batch shape
    return [p(a['feat'], c, return_padded=s['pad'] and s['input'] != 'ids')]
  return [p(a['feat'], c, z, s['radius'], return_sorted=s['srt'],
            return_padded=s['pad'])]


def f_block(s, a, w):
  c, z = clouds(s, a)
  l, spec = w.r('block'), w.spec['block']
  kw = dict(return_sorted=s['srt'], return_padded=s['pad'],
            training=s['train'])
  if spec['conv']['lt'] == 'kp':
    kw['kernel_influence_dist'] = s['radius']
  else:
    kw['bandwidth'] = s['bw']
  if spec['bt'] == 'spatial':
    return [l(a['feat'], c, z, np.full([3], s['radius'], np.float32), **kw)]
  if s['given']:
    kw['neighborhood'] = hood(s, c, c)[1]
  return [l(a['feat'], c, s['radius'], **kw)]


FUNCS = dict(cloud=f_cloud, box=f_box, grid=f_grid, nb=f_nb, pdf=f_pdf,
             avg=f_avg, hier=f_hier, conv=f_conv, pool=f_pool, block=f_block)
KINDS = dict(cloud=2, box=1, grid=2, nb=3, pdf=3, avg=2, hier=2, conv=7, pool=3,
             block=2, model=4)
# kinds with gradients
GRAD = ('conv', 'pool', 'block')


# -- models of the scripts --------------------------------------------------------------

_defs = {}


def model_class(variant, B):
  """The model of a script; its definitions without the statements."""
  from sim.scen_ds import statements
  path, body = statements(variant)
  ns = {'__name__': 'model_' + variant}
  for st in body:
    if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import,
                       ast.ImportFrom)):
      mods = [n.name for n in getattr(st, 'names', ())]
      if getattr(st, 'module', None) == 'data_paths' or 'h5py' in mods:
        continue
      try:
        exec(compile(ast.Module([st], []), path, 'exec'), ns)  # pylint: disable=exec-used
      except NameError:
        continue      # uses a constant of the data preparation
  ns['batch_size'] = B
  if 'mymodel' not in ns:
    raise HarnessError('no model in ' + path)
  return ns['mymodel']


def b_model(w, s):
  import tensorflow as tf
  cls = model_class(s['variant'], s['B'])
  rad = np.array(s['levels'])
  model = cls(list(s['sizes']), rad, rad * 2.0, layer_type=s['type'],
              sampling_method='cell average', dropout_rate=0.0)
  # creates the variables
  n = 3
  pts = gen.features(5, s['B'] * n, 3).reshape(s['B'], n, 3)
  tf.config.run_functions_eagerly(True)
  try:
    model(tf.constant(pts, tf.float32), tf.ones([s['B'], n, 1]),
          tf.fill([s['B']], n), tf.constant(False))
  finally:
    tf.config.run_functions_eagerly(False)
  for i, v in enumerate(model.variables):
    lo, hi = -0.5, 0.5
    if 'variance' in v.name or 'gamma' in v.name:
      lo, hi = 0.5, 1.5
    elif 'pdf' in v.name:
      # divides by the result
      lo, hi = 0.1, 0.8
    if v.dtype.is_floating:
      world.assign(v, s['seed'] + i, lo, hi)
  return model, {}


BUILD = dict(world.BUILD, model=b_model)


# -- data ------------------------------------------------------------------------------

def arrays(s, spec, fill):
  """Arguments of a call."""
  D, B, C = s['D'], s['B'], s['C']

  def cloud(els, key):
    n = max(1, max(len(e) for e in els))
    width = n + spec['extra']
    pad = np.full([B, width, D], fill, np.float32)
    for b, e in enumerate(els):
      if e:
        pad[b, :len(e)] = e
    flat = np.array([p for e in els for p in e], np.float32).reshape(-1, D)
    ids = np.array([b for b, e in enumerate(els) for _ in e], np.int32)
    sizes = np.array([len(e) for e in els], np.int32)
    if s['input'] == 'ids':
      perm = np.random.RandomState(spec['fs'] % 2**31).permutation(len(ids))
      if key == '':
        return dict(pts=flat[perm], ids=ids[perm])
      return dict(cpts=flat[perm], cids=ids[perm])
    return {key + 'pts': pad, key + 'sizes': sizes}
  a = cloud(spec['els'], '')
  a.update(cloud(spec['cels'], 'c'))
  total = sum(len(e) for e in spec['els'])
  if s['kind'] == 'model':
    a['feat'] = np.ones(a['pts'].shape[:2] + (1,), np.float32)
  elif s['padded'] and s['input'] == 'padded' and s['kind'] != 'cloud':
    # features of padded points do not count
    f = gen.features(spec['fs'], total, C)
    a['feat'] = np.full(a['pts'].shape[:2] + (C,), fill, np.float32)
    k = 0
    for b, e in enumerate(spec['els']):
      a['feat'][b, :len(e)] = f[k:k + len(e)]
      k += len(e)
  else:
    a['feat'] = gen.features(spec['fs'], total, C)
  return a


def signature(a):
  import tensorflow as tf
  keep = {'pts': 1, 'cpts': 1, 'feat': 0}
  out = {}
  for k, v in a.items():
    shape = [None] * v.ndim
    if k in keep or k == 'feat':
      shape[-1] = v.shape[-1]
    out[k] = tf.TensorSpec(shape, tf.as_dtype(v.dtype))
  return out


@scenario('C22')
class C22:

  def gen(self, rng, seed, tier):
    kind = rng.choices(list(KINDS), list(KINDS.values()))[0]
    D = 3 if kind == 'model' else rng.choice([2, 3, 3, 4])
    B = rng.choice([1, 2, 3, 4])
    radius = rng.choice([0.15, 0.25, 0.4, 0.7])
    s = dict(kind=kind, D=D, B=B, input=rng.choice(['padded', 'padded', 'ids']),
             centers=rng.choice(['same', 'same', 'other']),
             nocenters=rng.random() < 0.3, radius=radius,
             cell=gen.f32(radius * rng.choice([1.0, 1.0, 1.5])),
             bw=rng.choice([0.2, 0.4, 1.5]), list=rng.random() < 0.5, mode=0,
             norm=rng.random() < 0.5, transpose=rng.random() < 0.4,
             ord=rng.choice(['euclidean', 1, 2]),  levels=sorted(rng.sample([0.1, 0.2, 0.35, 0.6],
                                      rng.choice([1, 2, 3]))),
             srt=rng.random() < 0.3, pad=rng.random() < 0.4,
             given=rng.random() < 0.4, train=rng.random() < 0.2,
             padded=rng.random() < 0.4, C=rng.choice([1, 2, 3]),
             grad=kind in GRAD and rng.random() < 0.4)
    objs = []
    if kind == 'conv':
      c = conv_spec(rng, D)
      s['C'] = c['cin']
      objs.append(dict(c, t='layer', name='layer'))
    elif kind == 'pool':
      objs.append(dict(t='pool', name='pool',
                       p=rng.choice(['gmax', 'gavg', 'max', 'avg'])))
    elif kind == 'block':
      C = rng.choice([2, 4])
      o = dict(t='block', name='block', C=C, D=D, blocks=rng.choice([1, 2]),
               bt=rng.choice(['plain', 'bottle', 'spatial']),
               proj=rng.random() < 0.5, seed=rng.getrandbits(28))
      o['bottle'] = rng.choice([2, 4])
      k = o['bottle'] if o['bt'] == 'bottle' else C
      o['conv'] = conv_spec(rng, D, k, k, kinds=('mc', 'pc', 'kp'))
      if o['conv']['lt'] == 'kp':
        o['conv']['deform'] = False
      o['type'] = {'mc': 'MCConv', 'pc': 'PointConv',
                   'kp': 'KPConv'}[o['conv']['lt']]
      s['C'] = C
      objs.append(o)
    elif kind == 'model':
      variant = rng.choice(['modelnet40', 'modelnet40_small'])
      L = rng.choice([1, 2, 3])
      s['input'], s['centers'] = 'padded', 'same'
      s['variant'] = variant
      lv = sorted(rng.sample([0.15, 0.3, 0.5, 0.9], L))
      s['train'] = False
      sizes = [4 * rng.choice([1, 2]) for _ in range(L)] + [8, 8, 5]
      if variant == 'modelnet40_small':
        lv = lv[:L] + [4.0]
        sizes = [1] + [4 * rng.choice([1, 2]) for _ in lv] + [8, 5]
      objs.append(dict(t='model', name='model', variant=variant, B=B,
                       levels=lv, sizes=sizes, seed=rng.getrandbits(28),
                       type=rng.choice(['MCConv', 'PointConv', 'KPConv'])))
    calls = []
    rate = rng.choice([0, 0.3, 0.7])
    nmax = 9 if kind in ('block', 'model') else rng.choice([6, 14, 30])
    for _ in range(rng.randint(2, 3 if kind in ('block', 'model') else 5)):
      empty = rng.choice([0, 0.2]) if kind != 'model' else 0

      def els():
        out = [[] if rng.random() < empty else
               gen.points(rng, rng.randint(1, nmax), D, 'uniform', 1.0)
               for _ in range(B)]
        if not any(out):
          out[-1] = gen.points(rng, 2, D, 'uniform', 1.0)
        return out
      e = els()
      near = [[[gen.f32(v + rng.uniform(-0.1, 0.1)) for v in p]
               for p in x if rng.random() < 0.6] for x in e]
      if not any(near):
        near[0] = gen.points(rng, 1, D, 'uniform', 1.0)
      call = dict(how=rng.choice(['graph', 'graph', 'graph', 'eager']),
                  els=e, cels=near, extra=rng.choice([0, 0, 2]),
                  fs=rng.getrandbits(31), fill=rng.choice([0.0, 9.5, -3.0]))
      if rng.random() < rate:
        pos = rng.choice([rng.randrange(0, 12), rng.randrange(0, 80),
                          rng.randrange(0, 500)])
        call['faults'] = [[pos, rng.choice(gen.FAULT_KINDS)]]
      calls.append(call)
    calls[0]['how'] = rng.choice(['graph', 'graph', 'eager'])
    return dict(prop='C22', seed=seed, fn=s, objects=objs,
                lists=dict(calls=calls))

  def run(self, plan, sim):
    import tensorflow as tf
    install_trace_seam()
    s = plan['fn']
    ws = []
    for _ in range(2):
      w = world.World(sim)
      # kernel points are rotated at random
      random.seed(plan['seed'])
      np.random.seed(plan['seed'] % 2**32)
      tf.random.set_seed(plan['seed'] % 2**31)
      for o in plan['objects']:
        w.spec[o['name']] = o
        w.real[o['name']], w.model[o['name']] = BUILD[o['t']](w, o)
      ws.append(w)
    subject, twin = self.function(s, ws[0]), self.function(s, ws[1])
    compiled = None
    calls = plan['lists']['calls']
    if not calls:
      raise Skip('no calls')

    def go(c):
      nonlocal compiled
      for k, call in enumerate(calls):
        a = {k2: tf.constant(v) for k2, v in
             arrays(s, call, call['fill']).items()}
        want = self.eager(sim, twin, ws[1], s, a)
        if compiled is None:
          compiled = self.compile(s, ws[0], subject, a)
        run = compiled if call['how'] == 'graph' else \
            (lambda x: self.direct(s, ws[0], subject, x))
        faults = [Fault(p, kind) for p, kind in call.get('faults', ())]

        def noisy(a=a):
          return self.noisy(sim, twin, ws[1], s, a)
        text = f"{s['kind']} {call['how']} call {k} of {len(calls)}"
        if faults:
          st, got = sim.call(lambda: npy(run(a)), faults)
          if st == 'err':
            hit = [f for f in faults if f.fired]
            if not hit:
              raise Violation('unexpected-error',
                              f'{text}: {type(got).__name__}: {short(got)}')
            sim.probe('failed calls')
            sim.probe('failed ' + ('while tracing' if
                                   hit[0].at.startswith('trace:') else
                                   'while executing'))
            if is_injected(got):
              sim.probe('injected error seen')
            sim.event('failed', k, type(got).__name__)
          else:
            self.compare(sim, text, got, want, noisy)
            if s['train']:
              continue      # the state has moved on
            st = 'ok'
        st, got = sim.call(lambda: npy(run(a)))
        if st == 'err':
          raise Violation('unexpected-error',
                          f'{text}: {type(got).__name__}: {short(got)}')
        self.compare(sim, text, got, want, noisy)
        sim.event('res', k, call['how'], [tuple(x.shape) for x in got])
        sim.ops_ok += 1
    sim.run_clients([go])

  def compare(self, sim, text, got, want, noisy):
    sim.checks += 1
    if len(want) != len(got):
      raise Violation('graph-differs', f'{text}: {len(got)} results')
    for i, (x, y) in enumerate(zip(want, got)):
      # graph rewriting may change the rounding
      size = float(np.abs(x[np.isfinite(x)]).max(initial=0)) \
          if x.dtype.kind == 'f' else 0
      d = tree_close(x, y, rtol=5e-4, atol=1e-4 * size + 1e-6)
      if d and size:
        sim.probe('tolerance from noise')
        d = tree_close(x, y, rtol=5e-4, atol=1e-4 * size + 30 * noisy()[i])
      if d:
        raise Violation('graph-differs',
                        f'{text}: eager and compiled result {i} {d}')

  def noisy(self, sim, fn, w, s, a):
    """How much rounding of the arguments changes the results."""
    import tensorflow as tf
    if s['train']:
      return [0.0] * 99
    want = self.eager(sim, fn, w, s, a)
    out = [0.0] * len(want)
    for k in range(4):
      rng = np.random.RandomState(k)
      b = {}
      for key, v in a.items():
        x = np.asarray(v)
        if x.dtype == np.float32:
          x = (x * (1 + rng.uniform(-3e-7, 3e-7, x.shape))).astype(np.float32)
        b[key] = tf.constant(x)
      got = self.eager(sim, fn, w, s, b)
      for i, (x, y) in enumerate(zip(want, got)):
        if x.shape == y.shape and x.dtype.kind == 'f' and x.size:
          out[i] = max(out[i], float(np.nan_to_num(np.abs(x - y)).max()))
    return out

  def eager(self, sim, fn, w, s, a):
    st, r = sim.call(lambda: npy(self.direct(s, w, fn, a)))
    if st == 'err':
      raise Violation('unexpected-error', f"{s['kind']} eager: "
                      f'{type(r).__name__}: {short(r)}')
    return r

  def function(self, s, w):
    import tensorflow as tf
    if s['kind'] == 'model':
      return w.r('model')

    def body(a):
      return [tf.convert_to_tensor(x) for x in FUNCS[s['kind']](s, a, w)]
    if not s['grad']:
      return body

    def with_grad(a):
      a = dict(a)
      feat = a['feat'] = tf.identity(a['feat'])
      with tf.GradientTape() as tape:
        tape.watch(feat)
        out = body(a)
        weight = tf.math.sin(tf.cast(tf.range(tf.size(out[0])), tf.float32))
        loss = tf.reduce_sum(out[0] * tf.reshape(weight, tf.shape(out[0])))
      g = tape.gradient(loss, [feat])
      return out + [tf.convert_to_tensor(x) for x in g]
    return with_grad

  def direct(self, s, w, fn, a):
    """Eager execution."""
    if s['kind'] != 'model':
      return fn(a)
    import tensorflow as tf
    tf.config.run_functions_eagerly(True)
    try:
      return [fn(a['pts'], a['feat'], a['sizes'], tf.constant(s['train']))]
    finally:
      tf.config.run_functions_eagerly(False)

  def compile(self, s, w, fn, a):
    import tensorflow as tf
    if s['kind'] == 'model':
      # compiled by its own decorator
      return lambda x: [fn(x['pts'], x['feat'], x['sizes'],
                           tf.constant(s['train']))]
    return tf.function(fn, input_signature=[signature(a)])
