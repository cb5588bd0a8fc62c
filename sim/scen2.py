"""Differential scenarios: failures (C13) and interleavings (C14) against a twin.

The twin is a second, freshly built set of the same objects on which the same
calls are made without the failing attempts (C13) or one after the other (C14).
"""
import random

from sim import gen
from sim.core import Fault, Violation
from sim.scen import (B, build_objects, centers_cloud, cloud_read, conv_op,
                      layer_bw,
                      conv_spec, describe, grid_params, level_cells, scaled,
                      scenario, shape_change, short, valid_op)
from sim.world import World, prepare, digest_tree, tree_close

LAYER_KINDS = ('mc', 'pc', 'kp', '1x1')


class Session:
  """A random set of related objects and calls on them."""

  def __init__(self, b, shapes, layers=True, hiers=True):
    rng = b.rng
    self.b, self.rng, self.shapes = b, rng, shapes
    self.c = b.cloud(nmax=18)
    m = b.m(self.c)
    self.D = D = m.D
    self.others = [centers_cloud(b, self.c, D)
                   for _ in range(rng.choice([0, 1, 1]))]
    self.bw = layer_bw(rng)
    self.rad = gen.radius_for(rng, m, rng.choice([0.2, 0.3, 0.5]))
    self.cells = gen.f32(self.rad * rng.choice([1.0, 1.3]))
    self.rads = [self.rad] + [scaled(self.rad, 0.7)] * rng.choice([0, 1])
    self.grids, self.nbs, self.layers, self.pools, self.hiers = \
        [], [], [], [], []
    kinds = rng.sample(['grid', 'nb', 'layer', 'pool', 'hier'],
                       rng.choice([2, 3, 3, 4]))
    if 'grid' in kinds or 'nb' in kinds:
      self.grids.append(b.obj('grid', cloud=self.c, cells=self.cells))
    if 'nb' in kinds:
      for _ in range(rng.choice([1, 2])):
        co = rng.choice([None, self.c] + self.others)
        r = rng.choice(self.rads)
        self.nbs.append((b.obj('nb', grid=self.grids[0], radius=r,
                               centers=co), co, r))
    if 'layer' in kinds and layers:
      for _ in range(rng.choice([1, 2])):
        s = conv_spec(rng, D, kinds=LAYER_KINDS)
        self.layers.append((b.obj('layer', **s, rs=b.fs()), s))
    if 'pool' in kinds:
      p = rng.choice(['gmax', 'gavg', 'max', 'avg'])
      self.pools.append((b.obj('pool', p=p), p))
    if 'hier' in kinds and hiers:
      self.hcells = level_cells(rng, m)[:2]
      self.hiers.append(b.obj('hier', cloud=self.c, cells=self.hcells,
                              mode=rng.choice(['poisson', 'cell average']),
                              rs=b.fs()))
    self.noshape = bool(self.hiers)

  def clouds(self):
    return [self.c] + self.others

  def pdf_args(self):
    return dict(bw=self.bw)

  def kinds(self):
    """Kinds of calls with state to contend for."""
    return [k for k, v in (('layer', self.layers), ('pool', self.pools),
                           ('nb', self.nbs), ('hier', self.hiers),
                           ('cloud', [1])) for _ in v]

  def call(self, client=0, fault=True, only=None):
    """Appends one call, returns it."""
    b, rng = self.b, self.rng
    todo = ['cloud', 'cloud']
    if self.grids:
      todo += ['grid', 'nbnew']
    if self.nbs:
      todo += ['nb'] * 3
    if self.layers:
      todo += ['layer'] * 3
    if self.pools:
      todo += ['pool'] * 2
    if self.hiers:
      todo += ['hier'] * 3
    if self.shapes:
      todo.append('shape')
    todo += ['sample', 'newgrid']
    k = only or rng.choice(todo)
    c = rng.choice(self.clouds())
    if k == 'cloud':
      return cloud_read(b, c, client)
    if k == 'shape':
      if self.hiers and rng.random() < 0.5:
        m = b.m(self.c)
        s = rng.choice([None, gen.shape_for(rng, m.B)])
        m.shape = m.sizes_shape = s
        return b.op('h_shape', client, h=self.hiers[0], shape=s)
      if c == self.c and self.hiers:
        return cloud_read(b, c, client)
      return shape_change(b, c)
    if k == 'grid':
      return b.op(rng.choice(['grid_ds', 'grid_ds', 'grid_read']), client,
                  g=self.grids[0])
    if k == 'newgrid':
      return b.op('grid', client, c=c, cells=grid_params(rng, b.m(c))[0],
                  ds=rng.random() < 0.5)
    if k == 'nbnew':
      return b.op(rng.choice(['nb', 'nb_func']), client, g=self.grids[0],
                  radius=rng.choice(self.rads), centers=rng.choice([None, c]))
    if k == 'nb':
      n, co, _ = rng.choice(self.nbs)
      x = rng.random()
      if x < 0.25:
        return b.op('pdf_get', client, n=n, **self.pdf_args())
      if x < 0.4:
        return b.op('pdf_compute', client, n=n, **self.pdf_args())
      if x < 0.6:
        return b.op('transpose2', client, n=n)
      if x < 0.7:
        return b.op('t_pdf', client, n=n, **self.pdf_args())
      if x < 0.85:
        return b.op('basis', client, n=n, H=rng.choice([8, 16]),
                    C=rng.choice([1, 3, 8]), b=b.fs(), f=b.fs(), u=b.fs(),
                    grad=False)
      return b.op('nb_read', client, n=n)
    if k == 'layer':
      l, s = rng.choice(self.layers)
      n, co, r = None, rng.choice(self.clouds()), rng.choice(self.rads)
      fit = [x for x in self.nbs if x[1] is not None]
      if fit and rng.random() < 0.5:
        n, co, r = rng.choice(fit)
      kw = {}
      if s['lt'] in ('mc', 'pc'):
        kw['bw'] = self.bw
      return conv_op(b, l, s, self.c, co, n, r, client, **kw)
    if k == 'pool':
      p, t = rng.choice(self.pools)
      return b.op('pool', client, p=p, cin=self.c, cout=c,
                  radius=rng.choice(self.rads), f=b.fs(), C=rng.choice([1, 2]), padded=rng.random() < 0.4,
                  extra=0, srt=rng.random() < 0.25, pad=rng.random() < 0.4)
    if k == 'hier':
      h = self.hiers[0]
      m = b.m(self.c)
      x = rng.random()
      if x < 0.2:
        return b.op('h_points', client, h=h, id=rng.randrange(m.B))
      if x < 0.35:
        return b.op('h_points', client, h=h, max=None)
      if x < 0.55:
        return b.op('h_sizes', client, h=h)
      if x < 0.65:
        return b.op('h_levels', client, h=h)
      return b.op('h_nb', client, h=h, tr=rng.random() < 0.5, i=rng.choice(
          [None, rng.randrange(len(self.hcells))]))
    # sample
    x = rng.random()
    if x < 0.3:
      return b.op('poisson', client, c=c, radius=rng.choice(self.rads), ret=True)
    if x < 0.5 and self.nbs:
      n, co, _ = rng.choice(self.nbs)
      if co is None:
        return b.op('sample', client, n=n,
                    mode=rng.choice(['poisson', 'cell average']))
    if x < 0.7:
      return b.op('cellavg', client, c=c, cells=self.cells)
    if self.hiers and x < 0.8:
      return b.op('hier', client, c=c, cells=self.hcells, mode='poisson')
    return b.op('density', client, c=c, radius=rng.choice(self.rads),
                bw=self.bw)


def attempt(sim, w, o, faults=()):
  return sim.call(prepare(w, o), faults, random.Random(o.get('rs', 0)))


def compare(kind, what, o, a, z, extra=''):
  """Outcome of a call against the outcome in the twin."""
  (sa, va), (sz, vz) = a, z
  if sa != sz:
    d = (f'{type(va).__name__}: {short(va)}' if sa == 'err' else
         f'no error, alone {type(vz).__name__}: {short(vz)}')
    raise Violation(kind, f"{o['op']} {describe(o)} {what}: {d}{extra}")
  if sa == 'ok':
    d = tree_close(va, vz)
    if d:
      raise Violation(kind, f"{o['op']} {describe(o)} {what}: got and "
                      f'expected {d}{extra}')


@scenario('C13')
class C13:
  """Failed calls against a twin on which they were never made."""

  def gen(self, rng, seed, tier):
    b = B(rng, 'C13', seed)
    b.fault_rate = 0
    s = Session(b, shapes=True)
    for _ in range(rng.randint(3, 9)):
      o = s.call()
      if rng.random() < 0.7:
        o['faults'] = [[gen.fault_pos(rng, o['op']),
                        rng.choice(gen.FAULT_KINDS)]]
        if o['op'] != 'h_shape':
          cur = b.plan['clients'][0]
          keep = list(cur)
          between = []
          shapes, s.shapes = s.shapes, False
          for _ in range(rng.choice([0, 1, 2])):
            po = s.call()
            po.pop('faults', None)
            if po['op'] in ('set_shape', 'h_shape'):
              continue
            between.append(po)
          s.shapes = shapes
          b.plan['clients'][0] = keep
          o['between'] = between
          if o['op'] == 'set_shape':
            # the model the probes were drawn from already has the new shape
            o['between'] = [p for p in between if p.get('id') is None]
    return b.done()

  def run(self, plan, sim):
    wa, wz = World(sim), World(sim)
    build_objects(wa, sim, plan['objs'])
    build_objects(wz, sim, plan['objs'])

    def both(o, what, extra=''):
      if not valid_op(wa, o):
        return
      a = attempt(sim, wa, o)
      z = attempt(sim, wz, o)
      sim.event('cmp', o['op'], a[0], digest_tree(a[1]) if a[0] == 'ok'
                else type(a[1]).__name__)
      compare('trace-of-failure', what, o, a, z, extra)
      sim.checks += 1

    def go(c):
      last = ''
      for k, o in enumerate(plan['clients'][0]):
        if not valid_op(wa, o):
          continue
        faults = [Fault(p, kind) for p, kind in o.get('faults', ())]
        sim.event('op', k, o['op'])
        if faults:
          a = attempt(sim, wa, o, faults)
          hit = [f for f in faults if f.fired]
          if hit:
            f = hit[0]
            last = f" (after {f.kind} in operation {f.pos} {f.at} of " \
                f"{o['op']} {describe(o)})"
            sim.probe('failed-calls')
            if a[0] == 'ok':
              sim.probe('survived:' + f.at)
              # completed in spite of the failure
              z = attempt(sim, wz, o)
              compare('swallowed-failure', 'with a failing computation', o, a,
                      z, last)
              apply_shape((wa, wz), o, a)
              continue
            from sim.core import is_injected
            if not is_injected(a[1]):
              sim.probe('other-error:' + type(a[1]).__name__)
            for po in o.get('between', ()):
              both(po, 'after a failed call', last)
          else:
            # not long enough to fail
            z = attempt(sim, wz, o)
            compare('trace-of-failure', '', o, a, z, last)
            apply_shape((wa, wz), o, a)
            continue
        a = attempt(sim, wa, o)
        z = attempt(sim, wz, o)
        sim.event('res', k, a[0], digest_tree(a[1]) if a[0] == 'ok' else
                  type(a[1]).__name__)
        if a[0] == 'err' and z[0] == 'err':
          raise Violation('unexpected-error', f"{o['op']} {describe(o)}: "
                          f'{type(a[1]).__name__}: {short(a[1])}')
        compare('trace-of-failure', 'repeated' if faults else '', o, a, z, last)
        sim.checks += 1
        sim.ops_ok += 1
        apply_shape((wa, wz), o, a)
    sim.run_clients([go])


def apply_shape(worlds, o, a):
  """Only the parts of the model the validity of calls depends on."""
  if a[0] != 'ok':
    return
  for w in worlds:
    apply_one(w, o)


def apply_one(w, o):
  if o['op'] == 'set_shape':
    m = w.m(o['c'])
    m.shape = m.sizes_shape = o['shape']
    m.width = None
  elif o['op'] == 'h_shape':
    m = w.m(w.m(o['h'])['cloud'])
    m.shape = m.sizes_shape = o['shape']
  elif o['op'] == 'conv':
    w.m(o['l'])['last'] = (0, 0)


@scenario('C14')
class C14:
  """Threads on shared objects against the same calls one after the other."""

  def gen(self, rng, seed, tier):
    b = B(rng, 'C14', seed)
    b.fault_rate = rng.choice([0, 0, 0, 0.3])
    s = Session(b, shapes=False)
    nc = rng.choice([2, 2, 2, 3, 4])
    mode = rng.choice(['same', 'mixed', 'focus'])
    same = mode == 'same'
    # threads that use the same object with different arguments
    only = rng.choice(s.kinds()) if mode == 'focus' else None
    base = []
    for _ in range(rng.randint(1, 3)):
      base.append(s.call(0, only=only))
    b.plan['clients'] = [[] for _ in range(nc)]
    for i in range(nc):
      if same:
        # several threads make the same calls: contention on lazy values
        ops = [dict(o, rs=rng.getrandbits(32)) for o in base]
        for o in ops:
          o.pop('faults', None)
        rng.shuffle(ops)
        b.plan['clients'][i] = ops
      for _ in range(rng.choice([0, 1, 2]) if same else rng.randint(1, 3)):
        s.call(i, only=only)
    plan = b.done()
    plan['sched'] = dict(seed=rng.getrandbits(32),
                         p=rng.choice([0.02, 0.05, 0.2, 0.5, 0.8]),
                         lines=rng.random() < 0.75)
    return plan

  def run(self, plan, sim):
    wa = World(sim)
    build_objects(wa, sim, plan['objs'])
    res = {}

    def client(i, ops):
      def go(c):
        for k, o in enumerate(ops):
          if not valid_op(wa, o):
            continue
          faults = [Fault(p, kind) for p, kind in o.get('faults', ())]
          sim.event('op', i, k, o['op'])
          r = attempt(sim, wa, o, faults)
          if any(f.fired for f in faults) and r[0] == 'err':
            sim.event('failed', i, k)
            r = attempt(sim, wa, o)
          sim.event('res', i, k, r[0], digest_tree(r[1]) if r[0] == 'ok' else
                    type(r[1]).__name__)
          res[i, k] = r
      return go
    lists = [ops for ops in plan['clients'] if ops]
    if not lists:
      return
    sim.run_clients([client(i, ops) for i, ops in enumerate(lists)])
    wz = World(sim)
    build_objects(wz, sim, plan['objs'])
    for i, ops in enumerate(lists):
      for k, o in enumerate(ops):
        if (i, k) not in res:
          continue
        z = attempt(sim, wz, o)
        if z[0] == 'err' and res[i, k][0] == 'err':
          raise Violation('unexpected-error', f"{o['op']} {describe(o)}: "
                          f'{type(z[1]).__name__}: {short(z[1])}')
        compare('interleaving', f'by thread {i}, compared with running alone',
                o, res[i, k], z)
        sim.checks += 1
        sim.ops_ok += 1
