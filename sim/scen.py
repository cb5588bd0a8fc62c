"""Workload generators and the generic execution of a plan.

A plan: {prop, seed, objs: [object specs], clients: [[op, ...], ...], sched}.
Every op may carry `faults` [[position, kind], ...] that hit its first attempt.
"""
import random

import numpy as np

from sim import core, gen, expect
from sim import model as M
from sim.core import Fault, HarnessError, Skip, Violation, mix
from sim.world import World, prepare, digest_tree, full

SCENARIOS = {}


def scenario(*props):
  def deco(cls):
    inst = cls()
    for p in props:
      SCENARIOS[p] = inst
    return cls
  return deco


# -- execution -------------------------------------------------------------------

def build_objects(w, sim, objs):
  for spec in objs:
    st, val = sim.call(lambda s=spec: w.add(s['name'], s),
                       rng=random.Random(spec.get('rs', 0)))
    if st == 'err':
      raise Violation('construction',
                      f"{spec['t']} {describe(spec)}: {type(val).__name__}: {short(val)}")
    sim.event('built', spec['name'])


def short(e):
  return str(e).split('\n')[0][:300]


def describe(o):
  return {k: v for k, v in o.items() if k not in ('els', 'order')}


def valid_op(w, o):
  """False if shrinking made the op meaningless."""
  if o.get('q') and not valid_op(w, o['q']):
    return False
  for key in ('c', 'cin', 'cout', 'centers'):
    if o.get(key) and o[key] not in w.model:
      return False
  for key in ('ns',):
    if o.get(key) and any(x not in w.model for x in o[key]):
      return False
  for key in ('g', 'n', 'h', 'l', 'p', 'b', 'cdown'):
    if isinstance(o.get(key), str) and o[key] not in w.model:
      return False
  m = None
  if o.get('c'):
    m = w.m(o['c'])
  elif o.get('h'):
    m = w.m(w.m(o['h'])['cloud'])
  if m is not None and o.get('id') is not None and not o.get('raises'):
    ident = o['id']
    if isinstance(ident, int):
      return 0 <= ident < m.B
    shp = m.shape if m.shape is not None else [m.B]
    return len(ident) == len(shp) and all(i < s for i, s in zip(ident, shp))
  if m is not None and o.get('max') is not None and o['op'] in (
      'points', 'unflatten', 'h_points'):
    return o['max'] >= m.counts().max()
  if o['op'] == 'kp_loss':
    return 'last' in w.m(o['l'])
  if o['op'] in ('set_shape', 'h_shape') and o['shape'] is not None:
    ok = int(np.prod(o['shape'])) == m.B
    return ok != bool(o.get('raises'))
  if o.get('pad') and o['op'] == 'pool' and m is None:
    if w.m(o['p'])['p'] in ('gmax', 'gavg') and w.m(o['cin']).shape is None:
      return False
  return True


def apply_model(w, o):
  if o['op'] == 'set_shape':
    m = w.m(o['c'])
    m.shape = o['shape']
    m.sizes_shape = o['shape']
    m.width = None
  elif o['op'] == 'h_shape':
    h = w.m(o['h'])
    expect.h_models(w, o)
    for i, m in enumerate(h['levels']):
      m.shape = m.sizes_shape = o['shape']
      m.width = None


def do_op(w, sim, o, ci, k):
  if not valid_op(w, o):
    sim.event('skip-op', ci, k)
    return
  try:
    thunk = prepare(w, o)
  except (Violation, Skip, HarnessError):
    raise
  faults = [Fault(p, kind) for p, kind in o.get('faults', ())]
  sim.event('op', ci, k, o['op'])
  rng = random.Random(o.get('rs', 0))
  st, val = sim.call(thunk, faults, rng)
  hit = any(f.fired for f in faults)
  if st == 'err' and hit:
    # the failure is reported; repeating the call must work
    sim.event('failed', ci, k, type(val).__name__)
    sim.probe('retry')
    for po in o.get('between', ()):
      do_op(w, sim, po, ci, k)
    st, val = sim.call(prepare(w, o), (), random.Random(o.get('rs', 0)))
    if st == 'err' and not o.get('raises'):
      raise Violation('not-repeatable', f"{o['op']} {describe(o)} after a "
                      f"failure in {[f.at for f in faults if f.fired]}: "
                      f'{type(val).__name__}: {short(val)}')
  if o.get('raises'):
    if st != 'err':
      raise Violation('no-error', f"{o['op']} {describe(o)} did not raise")
    if o['raises'] == 'IndexError' and not (
        isinstance(val, IndexError) or
        (not isinstance(o.get('id'), int) and
         type(val).__name__ == 'InvalidArgumentError')):
      raise Violation('wrong-error', f"{o['op']} {describe(o)} raised "
                      f'{type(val).__name__}: {short(val)}')
    sim.event('raised', ci, k)
    sim.ops_ok += 1
    return
  if st == 'err':
    raise Violation('unexpected-error', f"{o['op']} {describe(o)}: "
                    f'{type(val).__name__}: {short(val)}')
  sim.event('res', ci, k, digest_tree(val))
  sim.ops_ok += 1
  if o['op'] in expect.CHECK:
    try:
      expect.CHECK[o['op']](w, o, val)
    except Violation as v:
      raise Violation(v.kind, f"{o['op']} {describe(o)}: {v.msg}")
    sim.checks += 1
  apply_model(w, o)


class Generic:
  """Model checked histories."""

  def run(self, plan, sim):
    w = World(sim)
    build_objects(w, sim, plan['objs'])

    def client(ops):
      def go(c):
        for k, o in enumerate(ops):
          do_op(w, sim, o, c.idx, k)
      return go
    lists = [ops for ops in plan['clients'] if ops]
    if not lists:
      return
    sim.run_clients([client(ops) for ops in lists])


# -- generation helpers --------------------------------------------------------------

class B:
  """Plan builder."""

  def __init__(self, rng, prop, seed):
    self.rng = rng
    self.plan = dict(prop=prop, seed=seed, objs=[], clients=[[]])
    self.models = {}
    self.n = 0
    self.fault_rate = rng.choice([0, 0, 0.15, 0.4, 0.8])

  def obj(self, t, **spec):
    name = f'{t}{self.n}'
    self.n += 1
    spec = dict(spec, t=t, name=name)
    self.plan['objs'].append(spec)
    if t == 'cloud':
      self.models[name] = gen.model_cloud(spec)
    return name

  def cloud(self, **kw):
    return self.obj('cloud', **gen.cloud(self.rng, **kw))

  def m(self, name):
    return self.models[name]

  def op(self, name, client=0, fault=True, **args):
    o = dict(op=name, rs=self.rng.getrandbits(32), **args)
    if fault and self.rng.random() < self.fault_rate:
      o['faults'] = [[gen.fault_pos(self.rng, name),
                      self.rng.choice(gen.FAULT_KINDS)]]
    while len(self.plan['clients']) <= client:
      self.plan['clients'].append([])
    self.plan['clients'][client].append(o)
    return o

  def done(self):
    n = len([c for c in self.plan['clients'] if c])
    self.plan['sched'] = gen.sched(self.rng, n)
    return self.plan

  def fs(self):
    return self.rng.getrandbits(31)


def centers_cloud(b, base, D):
  """A second cloud with the same elements around the same place."""
  rng = b.rng
  m = b.m(base)
  lo, hi = m.aabb()
  spec = gen.cloud(rng, D=D, B=m.B, nmax=16)
  span = float(np.nanmax(hi - lo)) or 1.0
  mode = rng.choice(['inside', 'inside', 'wide', 'subset'])
  for e in range(m.B):
    own = m.element(e)
    for i in range(len(spec['els'][e])):
      if len(own) and mode == 'subset':
        p = [float(v) for v in own[rng.randrange(len(own))]]
      else:
        l = lo[e] if len(own) else np.nanmin(lo, 0)
        h = hi[e] if len(own) else np.nanmax(hi, 0)
        ext = 0.0 if mode == 'inside' else 0.6 * span
        p = [gen.f32(rng.uniform(float(a) - ext, float(z) + ext))
             for a, z in zip(l, h)]
      spec['els'][e][i] = p
  return b.obj('cloud', **spec)


def grid_params(rng, m):
  """(cells, radius) with radius <= cells in every dimension, exact floats."""
  r = gen.radius_for(rng, m)
  if rng.random() < 0.35:
    rad = [gen.f32(r * rng.choice([1.0, 1.0, 0.5, 1.7])) for _ in range(m.D)]
  else:
    rad = r
  k = rng.choice([1.0, 1.0, 1.0, 1.3, 2.5])
  if isinstance(rad, list):
    cells = [gen.f32(x * k) for x in rad]
  elif rng.random() < 0.3 and k > 1:
    cells = [gen.f32(rad * rng.uniform(1.0, k) + 1e-6) for _ in range(m.D)]
  else:
    cells = gen.f32(rad * k)
    if rng.random() < 0.3:
      cells = [cells]
  if rng.random() < 0.2 and not isinstance(rad, list):
    rad = [rad]
  return cells, rad


def scaled(rad, f):
  return [gen.f32(x * f) for x in rad] if isinstance(rad, list) \
      else gen.f32(rad * f)


def huge_grid(b):
  """A cloud and cells with more cells than a 32 bit integer counts."""
  rng = b.rng
  D = rng.choice([5, 6, 6])
  c = b.cloud(nmax=30, D=D, B=rng.choice([1, 2, 3]), shift=False, scale=1.0,
              style=rng.choice(['cluster', 'uniform', 'corner', 'line']))
  if rng.random() < 0.4:
    # few columns (first two dimensions), each with more cells than an int32
    r = gen.f32(rng.uniform(0.0004, 0.0008) if D == 5 else
                rng.uniform(0.002, 0.0045))
    cells = [gen.f32(r * rng.choice([80, 200, 1000])) for _ in range(2)] + \
        [gen.f32(r * rng.choice([1.0, 0.9])) for _ in range(D - 2)]
    return c, cells, [gen.f32(x * rng.choice([1.0, 0.8])) for x in cells]
  r = gen.f32(rng.uniform(0.009, 0.02) if D == 5 else
              rng.uniform(0.017, 0.05))
  if rng.random() < 0.5:
    return c, r, r
  rad = [gen.f32(r * rng.choice([1.0, 0.8])) for _ in range(D)]
  return c, [gen.f32(r) for _ in range(D)], rad


def maybe_centers(b, c, p=0.5):
  return centers_cloud(b, c, b.m(c).D) if b.rng.random() < p else None


# -- C01 ------------------------------------------------------------------------------

def cloud_read(b, c, client=0, **kw):
  rng, m = b.rng, b.m(c)
  k = rng.randrange(8)
  mx = int(m.counts().max()) + rng.choice([0, 1, 4])
  if k == 0:
    return b.op('points', client, c=c, id=rng.randrange(m.B))
  if k == 1:
    shp = m.shape if m.shape is not None else [m.B]
    return b.op('points', client, c=c, id=[rng.randrange(s) for s in shp])
  if k == 2:
    return b.op('points', client, c=c,
                max=rng.choice([None, None, max(mx, 1)]))
  if k == 3:
    return b.op('sizes', client, c=c)
  if k == 4:
    return b.op('unflatten', client, c=c, f=b.fs(), C=rng.randint(1, 3),
                max=rng.choice([None, max(mx, 1)]))
  if k == 5:
    return b.op('flatten', client, c=c, f=b.fs(), C=rng.randint(1, 3),
                extra=rng.choice([0, 0, 2]))
  if k == 6:
    return b.op('diameter', client, c=c,
                ord=rng.choice(['euclidean', 1, 2, 'inf', 3]))
  return b.op('aabb', client, c=c)


def shape_change(b, c):
  rng, m = b.rng, b.m(c)
  s = rng.choice([None, gen.shape_for(rng, m.B), gen.shape_for(rng, m.B)])
  o = b.op('set_shape', c=c, shape=s)
  m.shape = s
  m.sizes_shape = s
  return o


@scenario('C01')
class C01(Generic):

  def gen(self, rng, seed, tier):
    b = B(rng, 'C01', seed)
    cs = [b.cloud(D=rng.choice([1, 2, 3, 3, 4, 6]), big=0.05)
          for _ in range(rng.choice([1, 1, 2]))]
    nc = rng.choice([1, 1, 1, 2, 3])
    for _ in range(rng.randint(3, 14)):
      c = rng.choice(cs)
      client = rng.randrange(nc)
      x = rng.random()
      m = b.m(c)
      if x < 0.12:
        b.op('points', client, c=c, raises='IndexError', fault=False,
             id=rng.choice([m.B, m.B + 3, -1, -m.B - 1, [m.B + 1]]))
      elif x < 0.2:
        b.op('set_shape', client, c=c, raises='any', fault=False,
             shape=rng.choice([[m.B + 1], [m.B, 2], [2, m.B]]))
      elif x < 0.4 and nc == 1:
        shape_change(b, c)
      else:
        cloud_read(b, c, client)
    return b.done()


# -- C02 ------------------------------------------------------------------------------

@scenario('C02')
class C02(Generic):

  def gen(self, rng, seed, tier):
    b = B(rng, 'C02', seed)
    nc = rng.choice([1, 1, 2])
    cs = [b.cloud(nmax=40, big=0.06) for _ in range(rng.choice([1, 1, 2]))]
    gs = []
    if rng.random() < 0.06:
      c, cells, _ = huge_grid(b)
      gs.append(b.obj('grid', cloud=c, cells=cells))
      b.op('grid', c=c, cells=cells, ds=True)
    for c in cs:
      for _ in range(rng.choice([0, 1, 2])):
        gs.append(b.obj('grid', cloud=c, cells=grid_params(rng, b.m(c))[0]))
    for _ in range(rng.randint(2, 6)):
      client = rng.randrange(nc)
      c = rng.choice(cs)
      x = rng.random()
      if x < 0.35:
        b.op('grid', client, c=c, cells=grid_params(rng, b.m(c))[0],
             ds=rng.random() < 0.7)
      elif x < 0.75 and gs:
        b.op(rng.choice(['grid_read', 'grid_ds', 'grid_ds']), client,
             g=rng.choice(gs))
      elif x < 0.9:
        b.op(rng.choice(['aabb', 'diameter']), client, c=c, ord=2)
      elif nc == 1:
        shape_change(b, c)
    return b.done()


# -- C03, C04 ----------------------------------------------------------------------------

class NbScen(Generic):
  prop = None
  limit = False

  def gen(self, rng, seed, tier):
    b = B(rng, self.prop, seed)
    nc = rng.choice([1, 1, 2])
    huge = rng.random() < 0.05
    if huge:
      c, cells, rad = huge_grid(b)
      gs = [(b.obj('grid', cloud=c, cells=cells), cells, rad)]
    else:
      c = b.cloud(nmax=40, big=0.06)
      gs = []
    ctrs = [centers_cloud(b, c, b.m(c).D)
            for _ in range(rng.choice([0, 1, 2]))] + [None]
    for _ in range(0 if huge else rng.choice([1, 1, 2])):
      cells, rad = grid_params(rng, b.m(c))
      gs.append((b.obj('grid', cloud=c, cells=cells), cells, rad))
    for _ in range(rng.randint(2, 5)):
      g, cells, rad = rng.choice(gs)
      if rng.random() < 0.3:
        rad = scaled(rad, rng.choice([0.3, 0.6, 0.9]))
      kw = {}
      if self.limit:
        kw['max'] = rng.choice([1, 2, 3, 3, 5, 8, 20, 64])
        if rng.random() < 0.1:
          kw['max'] = 0
      x = rng.random()
      client = rng.randrange(nc)
      if x < 0.5:
        b.op('nb', client, g=g, radius=rad, centers=rng.choice(ctrs), **kw)
      elif x < 0.8:
        b.op('nb_func', client, g=g, radius=rad, centers=rng.choice(ctrs),
             sorted=rng.random() < 0.5, **kw)
      else:
        n = b.obj('nb', grid=g, radius=rad, centers=rng.choice(ctrs), **kw)
        b.op('nb_read', client, n=n)
    return b.done()


@scenario('C03')
class C03(NbScen):
  prop = 'C03'


@scenario('C04')
class C04(NbScen):
  prop = 'C04'
  limit = True


# -- C05, C06 ----------------------------------------------------------------------------

@scenario('C05')
class C05(Generic):

  def gen(self, rng, seed, tier):
    b = B(rng, 'C05', seed)
    c = b.cloud(nmax=26, big=0.08)
    ns = []
    for _ in range(rng.choice([0, 1, 2])):
      cells, rad = grid_params(rng, b.m(c))
      g = b.obj('grid', cloud=c, cells=cells)
      ns.append(b.obj('nb', grid=g, radius=rad))
    nc = rng.choice([1, 1, 2])
    for _ in range(rng.randint(1, 4)):
      client = rng.randrange(nc)
      if ns and rng.random() < 0.65:
        n = rng.choice(ns)
        if rng.random() < 0.5:
          b.op('sample', client, n=n, mode=rng.choice(
              ['poisson', 'Poisson', 'poisson disk', 'poisson_disk']))
        else:
          b.op('poisson', client, n=n, ret=rng.random() < 0.6)
      else:
        rad = grid_params(rng, b.m(c))[1]
        b.op('poisson', client, c=c, radius=rad, ret=rng.random() < 0.6)
    return b.done()


@scenario('C06')
class C06(Generic):

  def gen(self, rng, seed, tier):
    b = B(rng, 'C06', seed)
    c = b.cloud(nmax=40, big=0.06)
    ns, gs = [], []
    for _ in range(rng.choice([0, 1, 2])):
      cells, rad = grid_params(rng, b.m(c))
      gs.append(b.obj('grid', cloud=c, cells=cells))
      ns.append(b.obj('nb', grid=gs[-1], radius=rad))
    nc = rng.choice([1, 1, 2])
    for _ in range(rng.randint(1, 5)):
      client = rng.randrange(nc)
      if ns and rng.random() < 0.65:
        if rng.random() < 0.5:
          b.op('sample', client, n=rng.choice(ns), mode=rng.choice(
              ['average', 'cell average', 'cell_average', 'Cell Average']))
        else:
          b.op('cellavg', client, g=rng.choice(gs))
      else:
        b.op('cellavg', client, c=c, cells=grid_params(rng, b.m(c))[0])
    return b.done()


# -- C07 -------------------------------------------------------------------------------------

def bandwidth(rng, D):
  bw = gen.f32(rng.choice([0.1, 0.2, 0.3, 0.5, 1.0]))
  if rng.random() < 0.3:
    return [gen.f32(bw * rng.choice([1, 1.5])) for _ in range(D)]
  return bw


def pdf_args(rng, D):
  return dict(bw=bandwidth(rng, D), nopdf=rng.random() < 0.12,
              norm=rng.random() < 0.3)


@scenario('C07')
class C07(Generic):

  def gen(self, rng, seed, tier):
    b = B(rng, 'C07', seed)
    c = b.cloud(nmax=28, big=0.05)
    D = b.m(c).D
    ns = []
    for _ in range(rng.choice([1, 1, 2])):
      cells, rad = grid_params(rng, b.m(c))
      g = b.obj('grid', cloud=c, cells=cells)
      for _ in range(rng.choice([1, 2])):
        ns.append((b.obj('nb', grid=g, radius=rad,
                         centers=maybe_centers(b, c)), rad))
    for _ in range(rng.randint(2, 6)):
      n, rad = rng.choice(ns)
      x = rng.random()
      if x < 0.3:
        b.op('pdf_compute', n=n, **pdf_args(rng, D))
      elif x < 0.5:
        b.op('pdf_get', n=n, **pdf_args(rng, D))
      elif x < 0.65:
        a = pdf_args(rng, D)
        a['norm'] = False
        b.op('density', c=c, radius=grid_params(rng, b.m(c))[1], **a)
      elif x < 0.8:
        b.op('density_nb', n=n, radius=rad, **pdf_args(rng, D))
      else:
        b.op('density_grad', c=c, radius=grid_params(rng, b.m(c))[1],
             bw=bandwidth(rng, D), f=b.fs())
    return b.done()


# -- C08 -------------------------------------------------------------------------------------

@scenario('C08')
class C08(Generic):

  def gen(self, rng, seed, tier):
    b = B(rng, 'C08', seed)
    c = b.cloud(nmax=24, big=0.05)
    ns = []
    for _ in range(rng.choice([1, 1, 2])):
      cells, rad = grid_params(rng, b.m(c))
      g = b.obj('grid', cloud=c, cells=cells)
      ns.append(b.obj('nb', grid=g, radius=rad,
                      centers=maybe_centers(b, c, 0.7)))
    nc = rng.choice([1, 1, 2])
    for _ in range(rng.randint(1, 5)):
      b.op('basis', rng.randrange(nc), n=rng.choice(ns),
           H=rng.choice([8, 16, 32, 64]),
           C=rng.choice([1, 2, 3, 7, 8, 16, 24, 40] if core.BACKEND == 'gpu'
                        else [1, 2, 3, 7, 8, 9, 16, 33]), b=b.fs(), f=b.fs(),
           u=b.fs(), grad=rng.random() < 0.4)
    return b.done()


# -- C09 -------------------------------------------------------------------------------------

@scenario('C09')
class C09(Generic):
  """Histories over neighborhoods that share a grid, with transposes."""

  def gen(self, rng, seed, tier):
    b = B(rng, 'C09', seed)
    c = b.cloud(nmax=24, big=0.04)
    D = b.m(c).D
    gs, ns = [], []
    for _ in range(rng.choice([1, 1, 1, 2])):
      cells, rad = grid_params(rng, b.m(c))
      gs.append(b.obj('grid', cloud=c, cells=cells))
      ctr = maybe_centers(b, c, 0.75)
      for _ in range(rng.choice([1, 2, 2, 3])):
        if rng.random() < 0.4:
          ctr = maybe_centers(b, c, 0.75)
        ns.append(b.obj('nb', grid=gs[-1], centers=ctr,
                        radius=scaled(rad, rng.choice([1, 1, 0.7, 0.45]))))
    for _ in range(rng.randint(3, 10)):
      n = rng.choice(ns)
      g = rng.choice(gs)
      x = rng.random()
      if x < 0.3:
        b.op('transpose2', n=n)
      elif x < 0.5:
        b.op('pdf_get', n=n, **pdf_args(rng, D))
      elif x < 0.7:
        b.op('pdf_compute', n=n, **pdf_args(rng, D))
      elif x < 0.78:
        b.op('pdf_get', n=n)
      elif x < 0.9:
        b.op('nb_read', n=n)
      elif x < 0.95:
        b.op('t_pdf', n=n, compute=rng.random() < 0.5, **pdf_args(rng, D))
      else:
        b.op(rng.choice(['grid_ds', 'grid_read']), g=g)
    return b.done()


# -- C10 -------------------------------------------------------------------------------------

def level_cells(rng, m):
  k = rng.choice([1, 2, 2, 3])
  r = gen.radius_for(rng, m, rng.choice([0.1, 0.2, 0.3]))
  out = []
  for _ in range(k):
    x = rng.random()
    if x < 0.4:
      out.append([gen.f32(r)])
    elif x < 0.6:
      out.append(gen.f32(r))
    elif x < 0.8:
      out.append([gen.f32(r * rng.choice([1, 1.5])) for _ in range(m.D)])
    else:
      out.append([gen.f32(r * rng.choice([1, 1.5]))
                  for _ in range(rng.randint(1, m.D))])
    r *= rng.choice([1.5, 2.0])
  return out


@scenario('C10')
class C10(Generic):

  def gen(self, rng, seed, tier):
    b = B(rng, 'C10', seed)
    c = b.cloud(nmax=22, big=0.04)
    m = b.m(c)
    mode = rng.choice(['poisson', 'cell average'])
    if rng.random() < 0.3:
      b.op('hier', c=c, cells=level_cells(rng, m), mode=rng.choice(
          ['poisson', 'cell average', 'average', 'poisson disk']))
    cells = level_cells(rng, m)
    h = b.obj('hier', cloud=c, cells=cells, mode=mode, rs=b.fs())
    nc = rng.choice([1, 1, 1, 2])
    for _ in range(rng.randint(3, 9)):
      client = rng.randrange(nc)
      x = rng.random()
      if x < 0.15:
        b.op('h_points', client, h=h, id=rng.randrange(m.B))
      elif x < 0.25:
        shp = m.shape if m.shape is not None else [m.B]
        b.op('h_points', client, h=h, id=[rng.randrange(s) for s in shp])
      elif x < 0.4:
        mx = int(m.counts().max()) + rng.choice([0, 2])
        b.op('h_points', client, h=h, max=rng.choice([None, max(mx, 1)]))
      elif x < 0.55:
        b.op('h_sizes', client, h=h)
      elif x < 0.65:
        b.op('h_levels', client, h=h)
      elif x < 0.8:
        k = len(cells)
        b.op('h_nb', client, h=h, tr=rng.random() < 0.5,
             i=rng.choice([None, rng.randrange(k), -1 - rng.randrange(k)]))
      elif nc == 1:
        s = rng.choice([None, gen.shape_for(rng, m.B),
                        gen.shape_for(rng, m.B)])
        if rng.random() < 0.2:
          b.op('h_shape', h=h, shape=[m.B + 1], raises='any', fault=False)
        else:
          b.op('h_shape', h=h, shape=s)
          m.shape = m.sizes_shape = s
    return b.done()


# -- C11, C12 ---------------------------------------------------------------------------------

def layer_bw(rng):
  return gen.f32(rng.choice([0.2, 0.3, 0.5, 0.5, 1.0, 1.6, 2.0]))


def conv_spec(rng, D, cin=None, cout=None, kinds=('mc', 'pc', 'kp', '1x1')):
  lt = rng.choice(list(kinds))
  cin = cin or rng.choice([1, 2, 3, 5])
  cout = cout or rng.choice([2, 4, 6])
  s = dict(lt=lt, cin=cin, cout=cout, D=D, seed=rng.getrandbits(30))
  if lt == 'mc':
    s['num_mlps'] = rng.choice([k for k in (1, 2, 4) if cout % k == 0])
    s['mlp'] = rng.choice([[8], [8], [16], [8, 8], [4, 8]])
    if s['num_mlps'] == 1:
      s['mlp'] = rng.choice([[8], [16], [32], [8, 16]])
    s['act'] = rng.choice(['relu', 'lrelu', 'leakyReLU', 'leaky_relu', 'ELU'])
  elif lt == 'pc':
    s['hidden'] = rng.choice([8, 16, 32])
    s['act'] = rng.choice(['ReLU', 'lrelu', 'leaky_relu', 'elu'])
  elif lt == 'kp':
    s['interp'] = rng.choice(['linear', 'gaussian'])
    s['deform'] = rng.random() < 0.5
    if D == 3 and rng.random() < 0.5:
      s['K'] = rng.choice([5, 7, 13, 15, 18])
    else:
      s['K'] = rng.choice([3, 5, 8, 9, 16, 20, rng.randint(1, 40)])
      r = np.random.RandomState(rng.getrandbits(31))
      s['kernel'] = [[gen.f32(v) for v in p]
                     for p in r.uniform(-1, 1, size=(s['K'], D))]
  return s


def conv_op(b, l, spec, ci, co, n, rad, client=0, **kw):
  rng = b.rng
  a = dict(l=l, cin=ci, f=b.fs(), C=spec['cin'], padded=rng.random() < 0.4,
           extra=rng.choice([0, 0, 2]), srt=rng.random() < 0.25,
           pad=rng.random() < 0.35)
  if spec['lt'] != '1x1':
    a.update(cout=co, radius=rad, n=n)
    if spec['lt'] == 'kp':
      a['infl'] = gen.f32(rad * rng.choice([0.4, 0.7, 1.0, 1.5]))
    else:
      a['bw'] = layer_bw(rng)
  a.update(kw)
  return b.op('conv', client, **a)


@scenario('C11')
class C11(Generic):

  def gen(self, rng, seed, tier):
    b = B(rng, 'C11', seed)
    c = b.cloud(nmax=20)
    m = b.m(c)
    D = m.D
    outs = [c] + [centers_cloud(b, c, D) for _ in range(rng.choice([0, 1]))]
    rad = gen.radius_for(rng, m, rng.choice([0.2, 0.3, 0.5, 0.9]))
    cells = gen.f32(rad * rng.choice([1.0, 1.0, 1.4]))
    own = rng.random() < 0.4      # layers compute their neighborhoods
    rads = [rad] + [scaled(rad, rng.choice([0.8, 0.5, 0.3]))
                    for _ in range(rng.choice([1, 2] if own else [0, 1, 1]))]
    nbs = {}
    if rng.random() < 0.8 and not own:
      g = b.obj('grid', cloud=c, cells=cells)
      for co in outs:
        for r in rads:
          nbs[co, r] = b.obj('nb', grid=g, radius=r, centers=co)
    ls = []
    for _ in range(rng.choice([1, 1, 2, 2])):
      s = conv_spec(rng, D)
      ls.append((b.obj('layer', **s), s))
    nc = rng.choice([1, 1, 1, 2])
    last = None
    for _ in range(rng.randint(2, 6)):
      l, s = rng.choice(ls)
      co = rng.choice(outs)
      client = rng.randrange(nc)
      r = rng.choice(rads)
      x = rng.random()
      if x < 0.12 and nc == 1:
        shape_change(b, rng.choice(outs))
        continue
      n = nbs.get((co, r)) if rng.random() < 0.45 else None
      if nc > 1:
        n = None
      if last and rng.random() < (0.6 if own else 0.3) and len(rads) > 1:
        # the same clouds and layer with another radius
        l, s, co, r0 = last
        r = rng.choice([x for x in rads if x != r0])
        n = None
      conv_op(b, l, s, c, co, n, r, client)
      last = l, s, co, r
      if s['lt'] == 'kp' and s['deform'] and nc == 1 and rng.random() < 0.5:
        b.op('kp_loss', l=l)
    return b.done()


@scenario('C12')
class C12(Generic):

  def gen(self, rng, seed, tier):
    b = B(rng, 'C12', seed)
    cs = [b.cloud(nmax=26, big=0.06)]
    D = b.m(cs[0]).D
    outs = [cs[0]] + [centers_cloud(b, cs[0], D)
                      for _ in range(rng.choice([0, 1]))]
    ps = [(b.obj('pool', p=p), p) for p in
          rng.sample(['gmax', 'gavg', 'max', 'avg'], rng.choice([1, 2, 3]))]
    nc = rng.choice([1, 1, 1, 2])
    rad0 = gen.radius_for(rng, b.m(cs[0]))
    for _ in range(rng.randint(2, 6)):
      client = rng.randrange(nc)
      if rng.random() < 0.2 and nc == 1:
        shape_change(b, rng.choice(outs))
        continue
      p, t = rng.choice(ps)
      ci = cs[0] if t in ('max', 'avg') else rng.choice(outs)
      rad = rng.choice([rad0, rad0, [rad0], scaled(rad0, 0.6),
                        [gen.f32(rad0 * rng.choice([0.5, 1, 1.7]))
                         for _ in range(D)]])
      b.op('pool', client, p=p, cin=ci, cout=rng.choice(outs), radius=rad,
           f=b.fs(), C=rng.choice([1, 2, 4]), padded=rng.random() < 0.4,
           extra=rng.choice([0, 0, 2]), srt=rng.random() < 0.25,
           pad=rng.random() < 0.4)
    return b.done()


# -- C20 --------------------------------------------------------------------------------------

BLOCK_TYPES = {'mc': ['MCConv', 'mc', 'mc_conv'], 'pc': ['PointConv',
                                                        'point_conv'],
               'kp': ['KPConv', 'kp', 'kp_conv']}


@scenario('C20')
class C20(Generic):

  def gen(self, rng, seed, tier):
    b = B(rng, 'C20', seed)
    b.fault_rate = rng.choice([0, 0.15, 0.4])
    c = b.cloud(nmax=16)
    m = b.m(c)
    D = m.D
    down = centers_cloud(b, c, D)
    r = gen.radius_for(rng, m, rng.choice([0.2, 0.3, 0.5]))
    blocks = []
    for _ in range(rng.choice([1, 1, 2])):
      C = rng.choice([2, 4])
      bt = rng.choice(['plain', 'bottle', 'spatial'])
      k = rng.choice([2, 4]) if bt == 'bottle' else C
      s = dict(bt=bt, C=C, D=D, blocks=rng.choice([1, 1, 2]), bottle=k,
               proj=rng.random() < 0.5, seed=rng.getrandbits(28))
      s['conv'] = conv_spec(rng, D, k, k, kinds=('mc', 'pc', 'kp'))
      if s['conv']['lt'] == 'kp':
        s['conv']['deform'] = False
      s['type'] = rng.choice(BLOCK_TYPES[s['conv']['lt']])
      blocks.append((b.obj('block', **s), s))
    nbs = {}

    def hood(a, z, rad):
      key = (a, z, rad)
      if key not in nbs:
        g = b.obj('grid', cloud=a, cells=rad)
        nbs[key] = b.obj('nb', grid=g, radius=rad, centers=z)
      return nbs[key]
    radii3 = [r, gen.f32(r * rng.choice([1, 1.5])),
              r if rng.random() < 0.5 else gen.f32(r * 1.25)]
    bw = layer_bw(rng)
    for _ in range(rng.randint(1, 4)):
      n, s = rng.choice(blocks)
      if rng.random() < 0.15:
        shape_change(b, c)
        continue
      a = dict(b=n, cin=c, f=b.fs(), C=s['C'], padded=rng.random() < 0.4,
               extra=rng.choice([0, 0, 2]), srt=rng.random() < 0.25,
               pad=rng.random() < 0.35, train=rng.random() < 0.15, bw=bw)
      if s['bt'] == 'spatial':
        rs = rng.choice([radii3, radii3, [gen.f32(0.7 * x) for x in radii3]])
        a.update(cdown=down, radii=rs)
        if rng.random() < 0.5:
          a['ns'] = [hood(c, down, rs[0]), hood(down, down, rs[1]),
                     hood(down, c, rs[2])]
      else:
        a['radii'] = [rng.choice([r, r, gen.f32(0.7 * r)])]
        if rng.random() < 0.5:
          a['ns'] = [hood(c, c, a['radii'][0])]
      if s['conv']['lt'] == 'kp':
        a['infl'] = gen.f32(r * rng.choice([0.7, 1.0, 1.5]))
      b.op('block', fault=not a['train'], **a)
    return b.done()


# -- C21 --------------------------------------------------------------------------------------

@scenario('C21')
class C21(Generic):

  def gen(self, rng, seed, tier):
    b = B(rng, 'C21', seed)
    nc = rng.choice([1, 1, 2])
    for _ in range(rng.randint(3, 12)):
      x = rng.random()
      client = rng.randrange(nc)
      if x < 0.15:
        b.op('kernel', client, K=rng.choice([0, 1, 3, 4, 6, 8, 9, 14, 16, 20]),
             rot=rng.random() < 0.5, raises='any', fault=False)
      elif x < 0.6:
        b.op('kernel', client, K=rng.choice([5, 7, 13, 15, 18]),
             rot=rng.random() < 0.8)
      elif x < 0.8:
        b.op('kp_default', client, K=rng.choice([5, 7, 13, 15, 18]),
             cin=rng.choice([1, 3]), cout=rng.choice([2, 4]),
             deform=rng.random() < 0.4)
      elif x < 0.85:
        b.op('kp_default', client, K=rng.choice([4, 6, 12, 16]), cin=1, cout=2,
             deform=False, raises='any', fault=False)
      else:
        b.op('rotate', client, N=rng.randint(2, 9), f=b.fs())
    return b.done()
