"""C23: gradients and training steps of layers against numerical derivatives.

A gradient call runs a layer, pooling, block or sampling on a tape, weights its
output with given numbers and asks for the derivatives with respect to
features, every parameter and, on clouds built on the tape, the coordinates of
points.  The oracle differentiates the float64 reference models numerically
along random directions.  Training steps change the parameters by the gradient;
later calls are checked against the new ones.
"""
import numpy as np

from sim import core, expect, gen, world
from sim import model as M
from sim.core import Skip, Violation
from sim.expect import bad, conv_value, block_chain, block_stats, nbs_of
from sim.scen import (B, Generic, BLOCK_TYPES, centers_cloud, conv_spec,
                      layer_bw,
                      scenario, shape_change, scaled)
from sim.world import full, npy

STEPS = (2e-4, 2e-5, 2e-6)


# -- parameters ---------------------------------------------------------------------

def conv_params(real, s, wm):
  """(name, variable, container, key) of every parameter of a convolution."""
  t = s['lt']
  if t == '1x1':
    return [('weights', real._weights_tf, wm, 'W'),
            ('bias', real._bias_tf, wm, 'b')]
  if t == 'mc':
    res = [(f'weights{i}', v, wm['weights'], i)
           for i, v in enumerate(real._weights_tf)]
    res += [(f'bias{i}', v, wm['bias'], i)
            for i, v in enumerate(real._bias_tf)]
    return res + [('final', real._final_weights_tf, wm, 'final')]
  if t == 'pc':
    res = [('axis', real._basis_axis_tf, wm, 'axis'),
           ('bias', real._basis_bias_tf, wm, 'bias'),
           ('weights', real._weights, wm, 'weights')]
    res += [(f'wpdf{i}', v, wm['wpdf'], i)
            for i, v in enumerate(real._weights_pdf)]
    return res + [(f'bpdf{i}', v, wm['bpdf'], i)
                  for i, v in enumerate(real._biases_pdf)]
  res = [('weights', real._weights, wm, 'weights')]
  if s['deform']:
    res.append(('offsets', real._kernel_offsets_weights, wm, 'offsets'))
  return res


def block_params(real, s, wm):
  res = []
  for i, c in enumerate(world.block_convs(real, s)):
    res += [(f'conv{i}.' + n, v, c_, k)
            for n, v, c_, k in conv_params(c, s['conv'], wm['conv'][i])]
  for i, bn in enumerate(real._batch_norm_layers):
    res += [(f'bn{i}.{n}', getattr(bn, n), wm['bn'][i], n)
            for n in ('gamma', 'beta')]
  lins = []
  if s['proj']:
    lins.append(('proj', real._projection_layers))
  if s['bt'] == 'bottle':
    lins += [('down', real._downsampling_layers),
             ('up', real._upsampling_layers)]
  for key, layers in lins:
    for i, l in enumerate(layers):
      wm[key][i] = list(wm[key][i])
      res += [(f'{key}{i}.W', l._weights_tf, wm[key][i], 0),
              (f'{key}{i}.b', l._bias_tf, wm[key][i], 1)]
  return res


def params(w, o):
  q = o['q']
  if q['op'] == 'conv':
    return conv_params(w.r(q['l']), w.spec[q['l']], w.m(q['l']))
  if q['op'] == 'block':
    return block_params(w.r(q['b']), w.spec[q['b']], w.m(q['b']))
  return []


def module(w, o):
  q = o['q']
  return w.r(q['l'] if q['op'] == 'conv' else q['b'])


# -- the call -----------------------------------------------------------------------

def clouds_of(o):
  """Clouds whose coordinates take part."""
  q = o['q']
  if q['op'] in ('cellavg', 'poisson'):
    return [q['c']]
  res = [q['cin']]
  if q['op'] == 'conv' and q.get('cout') and q['cout'] not in res:
    res.append(q['cout'])
  return res


def upstream(w, o):
  """Weights of the outputs, zero where the output is not specified."""
  q = o['q']
  if q['op'] == 'conv':
    s = w.spec[q['l']]
    n, C = w.m(q['cin'] if s['lt'] == '1x1' else q['cout']).N, s['cout']
  elif q['op'] == 'block':
    n, C = w.m(q['cin']).N, w.spec[q['b']]['C']
  else:
    ci = w.m(q['cin'])
    C = q['C']
    if w.m(q['p'])['p'] in ('gmax', 'gavg'):
      up = gen.features(o['u'], ci.B, C)
      up[ci.counts() == 0] = 0
      return up
    n = w.m(q['cout']).N
    up = gen.features(o['u'], n, C)
    for i, nb in enumerate(nbs_of(w, q, ci, w.m(q['cout']))):
      if not len(nb):
        up[i] = 0
    return up
  return gen.features(o['u'], n, C)


def weighted_sum(w, o, out, up, cloud):
  """Sum of outputs times weights in the layout of the output."""
  import tensorflow as tf
  q = o['q']
  if q['op'] == 'pool' and w.m(q['p'])['p'] in ('gmax', 'gavg'):
    if int(tf.size(out)) != up.size:
      bad('gradient-call', f'output of shape {out.shape}')
    return tf.reduce_sum(tf.reshape(out, up.shape) * up)
  lay = M.format_output(cloud, up, q.get('srt'), q.get('pad'))
  lay = [x for x in lay if list(x.shape) == out.shape.as_list()]
  if not lay:
    bad('gradient-call', f'output of shape {out.shape}')
  return tf.reduce_sum(out * lay[0])


@world.op
def grad(w, o):
  import tensorflow as tf
  from pylib.pc import (PointCloud, Grid, Neighborhood, cell_average_sampling,
                        poisson_disk_sampling)
  q = o['q']
  sampling = q['op'] in ('cellavg', 'poisson')
  want = o['what']
  ps = [p[1] for p in params(w, o)] if 'w' in want else []
  arg = None if sampling else world.feats_arg(w, q['cin'], q)
  names = clouds_of(o) if 'p' in want else []
  if 'p' in want:
    coords = {c: tf.constant(w.m(c).pts) for c in names}
    q = dict(q, pad=False)
    o = dict(o, q=q)
  up = None if sampling else upstream(w, o)
  out_cloud = None if sampling else w.m(q.get('cout') or q['cin'])

  def cloud(c):
    if 'p' in want:
      m = w.m(c)
      return PointCloud(coords[c], batch_ids=tf.constant(m.ids, tf.int32),
                        batch_size=m.B)
    return w.r(c)

  def run():
    made = {}

    def get(c):
      if c not in made:
        made[c] = cloud(c)
      return made[c]
    if q['op'] == 'cellavg':
      return cell_average_sampling(get(q['c']), world.cells_arg(q['cells'])
                                   )._points, None
    if q['op'] == 'poisson':
      c, idx = poisson_disk_sampling(
          get(q['c']), radius=world.cells_arg(q['radius']), return_ids=True)
      return c._points, idx
    fmt = dict(return_sorted=bool(q.get('srt')),
               return_padded=bool(q.get('pad')))
    ci = get(q['cin'])
    if q['op'] == 'pool':
      p = w.r(q['p'])
      if w.m(q['p'])['p'] in ('gmax', 'gavg'):
        return p(arg, ci, return_padded=bool(q.get('pad'))), None
      return p(arg, ci, get(q['cout']), world.cells_arg(q['radius']),
               **fmt), None
    s = w.spec[q['l']] if q['op'] == 'conv' else w.spec[q['b']]
    cs = s if q['op'] == 'conv' else s['conv']
    kw = dict(fmt)
    if cs['lt'] == 'kp':
      kw['kernel_influence_dist'] = q['infl']
    elif cs['lt'] != '1x1':
      kw['bandwidth'] = q['bw']
    if q['op'] == 'conv':
      l = w.r(q['l'])
      if cs['lt'] == '1x1':
        return l(arg, ci, **kw), None
      co = get(q['cout'])
      if q.get('n'):
        kw['neighborhood'] = w.r(q['n'])
      elif o.get('hood'):
        kw['neighborhood'] = Neighborhood(
            Grid(ci, world.cells_arg(gen.f32(q['radius'] * o['hood']))),
            q['radius'], co)
      return l(arg, ci, co, q['radius'], **kw), None
    b = w.r(q['b'])
    kw['training'] = bool(q.get('train'))
    if s['bt'] == 'spatial':
      return b(arg, ci, w.r(q['cdown']), np.array(q['radii'], np.float32),
               **kw), None
    return b(arg, ci, q['radii'][0], **kw), None

  def go():
    with tf.GradientTape(watch_accessed_variables=bool(o.get('acc'))) as t:
      src = {}
      if arg is not None and 'f' in want:
        t.watch(arg)
        src['f'] = arg
      t.watch(ps)
      src['w'] = ps
      if 'p' in want:
        t.watch([coords[c] for c in names])
        src['p'] = [coords[c] for c in names]
      out, idx = run()
      if sampling:
        u = gen.features(o['u'], int(out.shape[0]), int(out.shape[1]))
        loss = tf.reduce_sum(out * u)
      else:
        loss = weighted_sum(w, o, out, up, out_cloud)
      reg = None
      if o.get('reg'):
        reg = w.r(q['l']).regularization_loss()
        loss = loss + o['reg'] * reg
    g = t.gradient(loss, src)
    dense = lambda x: tf.convert_to_tensor(x) if isinstance(
        x, tf.IndexedSlices) else x
    g = {k: [dense(x) for x in v] if isinstance(v, list) else dense(v)
         for k, v in g.items()}
    return dict(loss=npy(loss), out=npy(out), idx=npy(idx), g=npy(g),
                reg=npy(reg))
  return go


# -- the oracle -----------------------------------------------------------------------

def reference(w, o, feats, pdfstate):
  """(value, magnitude, tolerance of the value, extra) at the current state."""
  q = o['q']
  if q['op'] == 'pool':
    ci = w.m(q['cin'])
    p = w.m(q['p'])['p']
    mx = p in ('gmax', 'max')
    if p in ('gmax', 'gavg'):
      groups = [np.flatnonzero(ci.ids == b) for b in range(ci.B)]
    else:
      groups = nbs_of(w, q, ci, w.m(q['cout']))
    val = np.zeros((len(groups), feats.shape[1]))
    for i, nb in enumerate(groups):
      if len(nb):
        val[i] = feats[nb].max(0) if mx else feats[nb].mean(0)
    return val, np.abs(val), 1e-5 * np.ones_like(val), None
  if q['op'] == 'block':
    val, err, bns = block_chain(w, q, feats)
    return val, np.abs(val), err + 1e-5 * np.abs(val), bns
  s, wm = w.spec[q['l']], w.m(q['l'])
  if s['lt'] == '1x1':
    W, b = (np.asarray(wm[k], np.float64) for k in 'Wb')
    val = feats @ W + b
    mag = np.abs(feats) @ np.abs(W) + np.abs(b)
    return val, mag, 1e-5 * mag + 1e-5, None
  out = conv_value(w, q, feats, s, wm, w.m(q['cin']), w.m(q['cout']), pdfstate)
  extra = (out[2], w.m(q['cout']).N) if s['lt'] == 'kp' else None
  return out[0], out[1], 1e-3 * out[1] + 1e-5, extra


def derivative(f, put, x0, v, eps):
  """(derivative along v, uncertainty because of kinks)."""
  mid = f()
  put(x0 + eps * v)
  a = f()
  put(x0 - eps * v)
  z = f()
  put(x0)
  return (a - z) / (2 * eps), abs(a + z - 2 * mid) / eps


def compare(w, what, f, put, x0, g, v, mag, rel, ab):
  """Gradient g against the derivative of f along v."""
  if g is None:
    g = np.zeros(x0.shape)
  if g.shape != x0.shape:
    bad('gradient-shape', f'{what}: {g.shape} instead of {x0.shape}')
  if not np.all(np.isfinite(g)):
    bad('gradient-not-finite', f'{what}: {int((~np.isfinite(g)).sum())} of '
        f'{g.size} entries')
  x0 = x0.astype(np.float64)
  got = float((g * v).sum())
  scale = float(np.abs(g * v).sum())
  tol = rel * scale + ab * mag
  w.sim.probe('directions')
  seen = []
  for eps in STEPS:
    d, kink = derivative(f, put, x0, v, eps)
    if abs(got - d) <= tol + kink:
      return
    seen += [d - kink, d + kink]
  # only where the reference is smooth around this state its derivative is
  # the one of a slightly perturbed state
  if max(seen) - min(seen) > 0.02 * max(scale, abs(d)) + ab * mag:
    w.sim.probe('not-smooth')
    return
  bad('gradient', f'{what}: derivative {got:.7g} instead of {d:.7g} '
      f'(tolerance {tol:.3g})')


def check_sampling(w, o, res):
  q, m = o['q'], w.m(o['q']['c'])
  out = res['out']
  u = gen.features(o['u'], out.shape[0], out.shape[1])
  g = res['g']['p'][0]
  if g is None:
    bad('gradient', 'no gradient for the coordinates of the points')
  want = np.zeros(m.pts.shape)
  if q['op'] == 'poisson':
    np.add.at(want, res['idx'].reshape(-1), u)
  else:
    keys, _ = expect.ref_keys(m, full(q['cells'], m.D))
    if keys is None:
      raise Skip('point on the boundary of a cell')
    tol = 2e-6 * float(np.abs(m.pts).max()) + 1e-9
    for k in np.unique(keys):
      sel = keys == k
      mean = m.pts[sel].astype(np.float64).mean(0)
      hit = np.flatnonzero(np.all(np.abs(out - mean) <= tol, 1))
      if len(hit) != 1:
        raise Skip('cells with the same mean')
      want[sel] = u[hit[0]] / sel.sum()
  expect.near('gradient', g, want, np.ones_like(want), 1e-5, 1e-6)


@expect.check
def grad(w, o, res):  # noqa: F811
  q = o['q']
  if q['op'] in ('cellavg', 'poisson'):
    check_sampling(w, o, res)
    return
  ps = params(w, o)
  if ps:
    have = {id(v) for v in module(w, o).trainable_variables}
    for name, v, _, _ in ps:
      if id(v) not in have:
        bad('not-trainable', f'{name} is not in trainable_variables')
  st = None
  if q.get('n') and w.m(q['n'])['pdf'] is None:
    w.m(q['n'])['pdf'] = (q.get('bw'), False, False)
  if q.get('n'):
    st = w.m(q['n'])['pdf']
  feats = world.flat_feats(w, q['cin'], q).astype(np.float64)
  cur = {'x': feats}
  up = upstream(w, o).astype(np.float64)
  reg = o.get('reg') or 0

  def f():
    val, _, _, extra = reference(w, o, cur['x'], st)
    return float((val * up).sum()) + (reg * extra[0] if reg else 0)
  val, mag, err, extra = reference(w, o, feats, st)
  if not np.all(np.isfinite(val)):
    raise Skip('overflow')
  lmag = float((np.abs(up) * mag).sum())
  lerr = float((np.abs(up) * err).sum()) + 1e-5
  loss = float((val * up).sum())
  if reg:
    loss += reg * extra[0]
    lmag += abs(reg * extra[0])
    lerr += abs(reg * extra[0]) * 2e-3 + 1e-3
  if not abs(float(res['loss']) - loss) <= lerr:
    bad('training-value', f"loss {float(res['loss']):.7g} instead of "
        f'{loss:.7g} (tolerance {lerr:.3g})')
  r = np.random.RandomState(o['u'] % (2**32))
  block = q['op'] == 'block'
  rel, ab = (4e-3, 1e-3) if block else (2e-3, 3e-4)
  g = res['g']
  if 'f' in o['what']:
    gf = g['f']
    if gf is not None and q.get('padded'):
      m = w.m(q['cin'])
      V = int(m.counts().max()) + q.get('extra', 0)
      flat = gf.reshape((m.B, V, -1))
      mask = m.pad(np.ones((m.N, 1)), V).reshape(m.B, V) > 0
      if np.any(flat[~mask] != 0):
        bad('gradient', 'features of padding have a gradient')
      gf = np.zeros(feats.shape)
      for b in range(m.B):
        gf[m.ids == b] = flat[b, :int(m.counts()[b])]

    def put(x):
      cur['x'] = x
    for _ in range(2):
      compare(w, 'features', f, put, feats, gf, r.normal(size=feats.shape),
              lmag, rel, ab)
  if 'w' in o['what']:
    for (name, _, cont, key), gw in zip(ps, g['w']):
      x0 = np.asarray(cont[key])

      def put_w(x, cont=cont, key=key):
        cont[key] = x
      v = r.normal(size=x0.shape)
      if r.rand() < 0.5:
        v = v * np.abs(x0)
      try:
        compare(w, name, f, put_w, x0, gw, v, lmag, rel, ab)
      finally:
        cont[key] = x0
  if 'p' in o['what']:
    rad = float(np.min(q['radius'])) if q.get('radius') else 1.0
    for c, gp in zip(clouds_of(o), g['p']):
      m = w.m(c)
      x0 = m.pts

      def put_p(x, m=m):
        m.pts = x
      try:
        span = float(np.abs(x0).max()) / rad if x0.size else 0
        for _ in range(2):
          compare(w, 'points of ' + c, f, put_p, x0, gp,
                  0.1 * rad * r.normal(size=x0.shape), lmag,
                  5e-3 + 1e-5 * span, 1e-3 + 1e-5 * span)
      finally:
        m.pts = x0
  if q['op'] == 'block':
    block_stats(w, q, extra)
  if q['op'] == 'conv' and w.spec[q['l']]['lt'] == 'kp':
    w.m(q['l'])['last'] = extra
  if o.get('lr') and ps:
    # a training step; the model continues with the new parameters
    for (name, v, cont, key), gw in zip(ps, g['w']):
      if gw is None or not gw.size:
        continue
      top = float(np.abs(gw).max())
      if top > 0:
        size = float(np.abs(cont[key]).max())
        v.assign_sub(np.float32(o['lr'] * size / top) * gw)
        cont[key] = np.asarray(v)
    w.sim.probe('training-steps')


# -- workloads ------------------------------------------------------------------------

def spec_conv_args(b, spec, ci, co, rad):
  rng = b.rng
  a = dict(f=b.fs(), C=spec['cin'], padded=rng.random() < 0.3,
           extra=rng.choice([0, 0, 2]), srt=rng.random() < 0.2,
           pad=rng.random() < 0.3)
  if spec['lt'] != '1x1':
    a.update(cout=co, radius=rad)
    if spec['lt'] == 'kp':
      a['infl'] = gen.f32(rad * rng.choice([0.4, 0.7, 1.0, 1.5]))
    else:
      a['bw'] = layer_bw(rng)
  return a


@scenario('C23')
class C23(Generic):

  def gen(self, rng, seed, tier):
    b = B(rng, 'C23', seed)
    b.fault_rate = rng.choice([0, 0, 0.15, 0.4])
    x = rng.random()
    if x < 0.62:
      self.convs(b)
    elif x < 0.78:
      self.blocks(b)
    elif x < 0.9 or core.BACKEND == 'gpu':
      # (the sampling op of the GPU has no gradient)
      self.pools(b)
    else:
      self.samplings(b)
    return b.done()

  def convs(self, b):
    rng = b.rng
    c = b.cloud(nmax=14)
    D = b.m(c).D
    outs = [c] + [centers_cloud(b, c, D) for _ in range(rng.choice([0, 1]))]
    rad = gen.radius_for(rng, b.m(c), rng.choice([0.3, 0.5, 0.9]))
    rads = [rad, scaled(rad, rng.choice([0.8, 0.5]))]
    nbs = {}
    if rng.random() < 0.5:
      g = b.obj('grid', cloud=c, cells=rad)
      for co in outs:
        nbs[co, rad] = b.obj('nb', grid=g, radius=rad, centers=co)
    ls = []
    for _ in range(rng.choice([1, 1, 2])):
      s = conv_spec(rng, D)
      if s['lt'] == 'kp':
        if s.get('kernel') and rng.random() < 0.6:
          s['kernel'][0] = [0.0] * D
        # kernel points that were not moved yet
        s['still'] = rng.random() < 0.3
      ls.append((b.obj('layer', **s), s))
    nc = rng.choice([1, 1, 1, 2])
    for _ in range(rng.randint(1, 4)):
      l, s = rng.choice(ls)
      co = rng.choice(outs)
      r = rng.choice(rads)
      client = rng.randrange(nc)
      if nc == 1 and rng.random() < 0.1:
        shape_change(b, rng.choice(outs))
        continue
      q = dict(op='conv', l=l, cin=c, **spec_conv_args(b, s, c, co, r))
      if nc == 1 and rng.random() < 0.4:
        q['n'] = nbs.get((co, r)) if s['lt'] != '1x1' else None
      if rng.random() < 0.25:
        # the value alone
        q.pop('op')
        b.op('conv', client, **q)
        continue
      o = dict(q=q, u=b.fs(), acc=rng.random() < 0.3,
               what=rng.choice(['f', 'w', 'w', 'fw', 'fw', 'p', 'fwp']))
      if 'p' in o['what']:
        q.update(n=None, padded=False, pad=False)
        o['hood'] = rng.choice([0, 0, 1, 1.5])
      if s['lt'] == 'kp' and s['deform'] and rng.random() < 0.4 and nc == 1:
        o['reg'] = gen.f32(rng.uniform(0.01, 0.3))
      if nc == 1 and 'w' in o['what'] and rng.random() < 0.5:
        o['lr'] = gen.f32(rng.choice([0.05, 0.2]))
      b.op('grad', client, **o)

  def blocks(self, b):
    rng = b.rng
    c = b.cloud(nmax=10)
    m = b.m(c)
    D = m.D
    down = centers_cloud(b, c, D)
    r = gen.radius_for(rng, m, rng.choice([0.3, 0.5]))
    C = rng.choice([2, 4])
    bt = rng.choice(['plain', 'bottle', 'spatial'])
    k = rng.choice([2, 4]) if bt == 'bottle' else C
    s = dict(bt=bt, C=C, D=D, blocks=rng.choice([1, 1, 2]), bottle=k,
             proj=rng.random() < 0.5, seed=rng.getrandbits(28))
    s['conv'] = conv_spec(rng, D, k, k, kinds=('mc', 'pc', 'kp'))
    if s['conv']['lt'] == 'kp':
      s['conv']['deform'] = False
    s['type'] = rng.choice(BLOCK_TYPES[s['conv']['lt']])
    n = b.obj('block', **s)
    for _ in range(rng.choice([1, 2, 2, 3])):
      q = dict(op='block', b=n, cin=c, f=b.fs(), C=C,
               padded=rng.random() < 0.3, extra=rng.choice([0, 2]),
               srt=rng.random() < 0.2, pad=rng.random() < 0.3,
               train=rng.random() < 0.3,
               bw=layer_bw(rng))
      if bt == 'spatial':
        q.update(cdown=down, radii=[r, gen.f32(r * rng.choice([1, 1.5])), r])
      else:
        q['radii'] = [r]
      if s['conv']['lt'] == 'kp':
        q['infl'] = gen.f32(r * rng.choice([0.7, 1.0, 1.5]))
      o = dict(q=q, u=b.fs(), what=rng.choice(['f', 'w', 'fw', 'fw']),
               acc=rng.random() < 0.3)
      if 'w' in o['what'] and rng.random() < 0.6:
        o['lr'] = gen.f32(rng.choice([0.05, 0.2]))
      b.op('grad', fault=not q['train'], **o)

  def pools(self, b):
    rng = b.rng
    c = b.cloud(nmax=20)
    D = b.m(c).D
    outs = [c, centers_cloud(b, c, D)]
    rad = gen.radius_for(rng, b.m(c), rng.choice([0.3, 0.5, 0.9]))
    nc = rng.choice([1, 1, 2])
    for _ in range(rng.randint(1, 4)):
      p = b.obj('pool', p=rng.choice(['gmax', 'gavg', 'max', 'avg']))
      q = dict(op='pool', p=p, cin=c, cout=rng.choice(outs),
               radius=rng.choice([rad, scaled(rad, 0.6)]), f=b.fs(),
               C=rng.choice([1, 2, 4]), padded=rng.random() < 0.4,
               extra=rng.choice([0, 2]), srt=rng.random() < 0.25,
               pad=rng.random() < 0.4)
      b.op('grad', rng.randrange(nc), q=q, u=b.fs(), what='f')

  def samplings(self, b):
    rng = b.rng
    c = b.cloud(nmax=24)
    m = b.m(c)
    for _ in range(rng.randint(1, 3)):
      rad = gen.radius_for(rng, m)
      if rng.random() < 0.5:
        q = dict(op='poisson', c=c, radius=rad)
      else:
        q = dict(op='cellavg', c=c, cells=rad)
      b.op('grad', q=q, u=b.fs(), what='p')
