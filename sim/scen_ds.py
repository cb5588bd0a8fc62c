"""C17, C18: the dataset scripts under crashes, and their batch generator.

The scripts are executed statement by statement from the working tree up to the
first statement that builds or trains a model.  Constants (points per file,
batch size, ...) are scaled down, `data_paths` points into a scratch directory,
and h5py and the renaming/removing functions of os are routed through the
simulator.
"""
import ast
import os
import random
import sys
import types

import numpy as np

from sim import core, fs, gen
from sim.core import Fault, HarnessError, SimCrash, Violation
from sim.scen import scenario, short

STOP = ('mymodel', 'modelnet_data_generator', 'training')
_code = {}


def statements(variant):
  """The top level statements of a script up to where training is set up."""
  if variant in _code:
    return _code[variant]
  path = os.path.join(core.REPO, variant + '.py')
  with open(path) as f:
    tree = ast.parse(f.read())
  out = []
  for st in tree.body:
    definition = isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import,
                                 ast.ImportFrom))
    if not definition and any(
        isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and
        n.func.id in STOP for n in ast.walk(st)):
      break
    out.append(st)
  _code[variant] = (path, out)
  return _code[variant]


def run_script(variant, const):
  """Executes a script; returns its globals."""
  path, body = statements(variant)
  ns = {'__name__': '__main__', '__file__': path, 'print': lambda *a, **k: None}
  found = set()
  for st in body:
    if isinstance(st, ast.Assign) and len(st.targets) == 1 and \
        isinstance(st.targets[0], ast.Name) and \
        isinstance(st.value, ast.Constant) and st.targets[0].id in const and \
        st.targets[0].id not in found:
      name = st.targets[0].id
      found.add(name)
      ns[name] = const[name]
      continue
    exec(compile(ast.Module([st], []), path, 'exec'), ns)  # pylint: disable=exec-used
  if found != set(const):
    raise HarnessError(f'{variant}.py does not set {set(const) - found}')
  return ns


# -- storage seam -----------------------------------------------------------------

class Disk:
  """Files open for writing and what a crash leaves of them."""

  def __init__(self, sc):
    self.sc = sc
    self.open = []      # SimH5 objects open for writing

  def settle(self, tears, sim):
    """The process is gone: tears every file that was being written."""
    for i, h in enumerate(self.open):
      tear = tears[i % len(tears)] if tears else ['clean']
      try:
        h.real.close()
      except Exception:  # pylint: disable=broad-except
        pass
      if not os.path.exists(h.path):
        continue
      with fs._real['open'](h.path, 'rb') as f:
        data = f.read()
      sim.event('tear', os.path.basename(h.path), tear[0], len(data))
      sim.fired['torn-' + tear[0]] = sim.fired.get('torn-' + tear[0], 0) + 1
      if tear[0] == 'clean':
        continue
      if tear[0] == 'empty':
        data = b''
      elif tear[0] == 'prefix':
        data = data[:int(len(data) * tear[1])]
      elif tear[0] == 'lost':
        # some of the pages never reached the disk
        rng = random.Random(tear[1])
        data = bytearray(data)
        for a in range(0, len(data), 512):
          if rng.random() < 0.5:
            data[a:a + 512] = bytes(len(data[a:a + 512]))
      elif tear[0] == 'gone':
        os.remove(h.path)
        continue
      with fs._real['open'](h.path, 'wb') as f:
        f.write(data)
    self.open = []


_disk = None


def point(name):
  sim = core.CUR
  if sim is not None:
    sim.point(name)


class SimDataset:

  def __init__(self, d):
    self._d = d

  def __getitem__(self, k):
    point('h5.read')
    return self._d[k]

  def __setitem__(self, k, v):
    point('h5.write')
    self._d[k] = v

  def __array__(self, *a, **k):
    point('h5.read')
    return np.asarray(self._d[()], *a)

  def __len__(self):
    return len(self._d)

  def __getattr__(self, name):
    return getattr(self._d, name)


class SimH5:
  """h5py.File whose operations can fail or be the last before a crash."""

  def __init__(self, name, mode='r', *args, **kw):
    point('h5.open')
    self.path = str(name)
    self.mode = mode
    self.real = _h5.File(self.path, mode, *args, **kw)
    if mode != 'r' and _disk is not None:
      _disk.open.append(self)
    point('h5.opened')

  def __getitem__(self, k):
    point('h5.lookup')
    v = self.real[k]
    return SimDataset(v) if isinstance(v, _h5.Dataset) else v

  def create_dataset(self, *args, **kw):
    point('h5.create')
    d = self.real.create_dataset(*args, **kw)
    point('h5.created')
    return SimDataset(d)

  def require_dataset(self, *args, **kw):
    point('h5.create')
    d = self.real.require_dataset(*args, **kw)
    point('h5.created')
    return SimDataset(d)

  def __setitem__(self, k, v):
    point('h5.create')
    self.real[k] = v
    point('h5.created')

  def __contains__(self, k):
    return k in self.real

  def flush(self):
    point('h5.flush')
    self.real.flush()

  def close(self):
    point('h5.close')
    self.real.close()
    if _disk is not None and self in _disk.open:
      _disk.open.remove(self)

  def __enter__(self):
    return self

  def __exit__(self, *a):
    me = core.current()
    if me is not None and me.dead:
      return False
    self.close()
    return False

  def __getattr__(self, name):
    return getattr(self.real, name)


_installed = False
_h5 = None      # the real h5py
_proxy = None   # what the scripts import

def install():
  """Puts h5py and destructive os functions behind the simulator."""
  global _installed, _h5, _proxy
  fs.install()
  if _installed:
    return
  _installed = True
  import h5py
  _h5 = h5py
  proxy = types.ModuleType('h5py')
  proxy.__dict__.update({k: v for k, v in h5py.__dict__.items()
                         if k not in ('File', '__name__')})
  proxy.File = SimH5
  _proxy = proxy
  for name in ('replace', 'rename', 'remove', 'unlink', 'mkdir', 'makedirs'):
    setattr(os, name, wrap(name, getattr(os, name)))


def wrap(name, fn):
  def wrapped(*args, **kw):
    if not (fs._active() and _disk is not None):
      return fn(*args, **kw)
    for a in args[:2]:
      if isinstance(a, str) and not os.path.abspath(a).startswith(
          _disk.sc.dir):
        raise HarnessError(f'os.{name}({a}) outside of the scratch directory')
    point('os.' + name)
    out = fn(*args, **kw)
    if name in ('replace', 'rename'):
      for h in _disk.open:
        if h.path == str(args[0]):
          h.path = str(args[1])
    point('os.%s.done' % name)
    return out
  return wrapped


# -- data sets ----------------------------------------------------------------------

CATS = ['airplane', 'bathtub', 'bed', 'night_stand', 'tv_stand', 'xbox']


def make_set(rng, ntrain, ntest, nlines, ncls):
  cats = rng.sample(CATS, ncls)
  out = dict(cats=cats, train=[], test=[])
  count = {}
  for part, n in (('train', ntrain), ('test', ntest)):
    for _ in range(n):
      c = rng.choice(cats)
      count[c] = count.get(c, 0) + 1
      rows = [['%.6f' % rng.uniform(-1, 1) for _ in range(6)]
              for _ in range(rng.choice([nlines, nlines, nlines + 2]))]
      out[part].append(dict(cat=c, name='%s_%04d' % (c, count[c]), rows=rows))
  return out


def write_set(sc, data, num):
  sc.write(f'data/modelnet{num}_shape_names.txt',
           ''.join(c + '\n' for c in data['cats']))
  for part in ('train', 'test'):
    sc.write(f'data/modelnet{num}_{part}.txt',
             ''.join(s['name'] + '\n' for s in data[part]))
    for s in data[part]:
      sc.write(f"data/{s['cat']}/{s['name']}.txt",
               ''.join(','.join(r) + '\n' for r in s['rows']))


def want_points(data, part, ppf):
  return np.array([[[np.float32(v) for v in r[:3]] for r in s['rows'][:ppf]]
                   for s in data[part]], np.float32)


def want_labels(data, part):
  return [data['cats'].index(s['cat']) for s in data[part]]


class env:
  """data_paths and h5py as the scripts see them."""

  def __init__(self, sc):
    self.sc = sc

  def __enter__(self):
    global _disk
    _disk = Disk(self.sc)
    m = types.ModuleType('data_paths')
    m.data_dir = self.sc.path('data') + '/'
    m.hdf5_tmp_dir = self.sc.path('cache')
    self.old = {k: sys.modules.get(k) for k in ('data_paths', 'h5py')}
    sys.modules['data_paths'] = m
    sys.modules['h5py'] = _proxy
    return self

  def __exit__(self, *a):
    global _disk
    _disk = None
    for k, v in self.old.items():
      if v is None:
        sys.modules.pop(k, None)
      else:
        sys.modules[k] = v


TEARS = ['clean', 'empty', 'prefix', 'prefix', 'lost', 'gone']


def tear(rng):
  t = rng.choice(TEARS)
  if t == 'prefix':
    return [t, round(rng.random(), 3)]
  if t == 'lost':
    return [t, rng.getrandbits(31)]
  return [t]


POINTS = ['h5.open', 'h5.opened', 'h5.create', 'h5.created', 'h5.close',
          'h5.read', 'h5.lookup', 'os.replace', 'os.replace.done', 'os.mkdir',
          'os.mkdir.done', 'fs.open', 'fs.read', 'h5.write']


@scenario('C17')
class Crashes:

  def gen(self, rng, seed, tier):
    plan = dict(prop='C17', seed=seed, lists=dict(runs=[]))
    plan['num'] = rng.choice([10, 40])
    plan['ppf'] = dict(modelnet40=rng.choice([1, 2, 4]),
                       modelnet40_small=rng.choice([1, 2, 3, 4]))
    plan['data'] = make_set(rng, rng.randint(1, 4), rng.randint(1, 3), 4,
                            rng.randint(1, 3))
    plan['dir'] = rng.random() < 0.3
    both = rng.random() < 0.3
    variant = rng.choice(['modelnet40', 'modelnet40_small'])
    for _ in range(rng.choice([1, 1, 2, 2, 3, 5])):
      run = dict(variant=variant)
      if both:
        run['variant'] = rng.choice(['modelnet40', 'modelnet40_small'])
      m = rng.random()
      if m < 0.45:
        run['crash'] = [rng.choice(POINTS), rng.choice([0, 0, 1, 1, 2, 5])]
      elif m < 0.75:
        run['crash'] = [None, int(700 * rng.random()**1.5)]
      elif m < 0.93:
        name = rng.choice(['h5.open', 'h5.create', 'h5.close', 'h5.read',
                           'os.replace', 'fs.open', 'fs.read', 'fs.read',
                           'fs.exists', 'h5.lookup'])
        kind = 'eio' if name.startswith('h5.re') or name == 'h5.lookup' else \
            rng.choice(['eio', 'enospc', 'memory']) if name[0] in 'ho' else \
            rng.choice(['internal', 'cancelled', 'oom'])
        run['faults'] = [[rng.choice([0, 0, 1, 1, 2, rng.randint(0, 20)]),
                          kind, name]]
      run['tears'] = [tear(rng) for _ in range(2)]
      plan['lists']['runs'].append(run)
    plan['last'] = dict(variant=variant)
    plan['again'] = rng.random() < 0.5
    return plan

  def run(self, plan, sim):
    install()
    with fs.Scratch() as sc:
      write_set(sc, plan['data'], plan['num'])
      if plan.get('dir'):
        os.mkdir(sc.path('cache'))
      runs = list(plan['lists']['runs']) + [plan['last']]
      if plan.get('again'):
        runs.append(plan['last'])
      with env(sc):
        for k, run in enumerate(runs):
          self.one(plan, sim, k, run)

  def one(self, plan, sim, k, run):
    variant = run['variant']
    const = dict(points_per_file=plan['ppf'][variant],
                 num_classes=plan['num'], batch_size=1)
    if variant == 'modelnet40':
      const['samples_per_model'] = 1
    fl = [Fault(p, kind, name) for p, kind, name in run.get('faults', ())]
    statements(variant)
    np.random.seed(plan['seed'] % (2**32))
    me = core.Client(0)
    core._tls.client = me
    me.crash = run.get('crash')
    sim.event('run', k, variant)
    crashed = False
    try:
      try:
        st, val = sim.call(lambda: run_script(variant, const), fl,
                           lines=bool(run.get('crash')))
      except SimCrash:
        crashed = True
        st, val = 'crash', None
    finally:
      core._tls.client = None
    _disk.settle(run.get('tears') or [], sim)
    if crashed:
      sim.probe('crashed')
      return
    if st == 'err':
      if any(f.fired for f in fl):
        sim.event('failed', type(val).__name__)
        sim.probe('failed')
        return
      raise Violation('run-failed', f'run {k} of {variant}.py failed without '
                      f'a failure of its own: {type(val).__name__}: {short(val)}')
    sim.ops_ok += 1
    for part in ('train', 'test'):
      want = want_points(plan['data'], part, plan['ppf'][variant])
      name = part + '_data_points'
      got = np.asarray(val[name])
      if got.shape != want.shape:
        raise Violation('data', f'run {k} of {variant}.py: {name} has shape '
                        f'{list(got.shape)}, the source {list(want.shape)}')
      bad = ~(np.abs(got - want) <= 1e-6 * np.abs(want))
      if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        raise Violation('data', f'run {k} of {variant}.py: {name}{list(i)} is '
                        f'{got[i]}, the source file says {want[i]}')
      lab = [int(v) for v in val[part + '_labels']]
      if lab != want_labels(plan['data'], part):
        raise Violation('labels', f'run {k} of {variant}.py: {part}_labels')
      sim.checks += 1
      sim.event('data', part, float(got.sum()))


# -- generator -------------------------------------------------------------------------

_classes = {}


def generator_class(variant, samples):
  """The generator class of a script, defined by running the script."""
  key = (variant, samples)
  if key in _classes:
    return _classes[key]
  install()
  rng = random.Random(1)
  data = make_set(rng, 1, 1, 2, 1)
  const = dict(points_per_file=2, num_classes=40, batch_size=1)
  if variant == 'modelnet40':
    const['samples_per_model'] = samples
  with fs.Scratch() as sc:
    write_set(sc, data, 40)
    with env(sc):
      state = np.random.get_state()
      ns = run_script(variant, const)
      np.random.set_state(state)
  _classes[key] = ns['modelnet_data_generator']
  return _classes[key]


@scenario('C18')
class Epochs:

  def gen(self, rng, seed, tier):
    plan = dict(prop='C18', seed=seed, lists=dict(ops=[]))
    variant = plan['variant'] = rng.choice(['modelnet40', 'modelnet40_small'])
    plan['samples'] = rng.choice([3, 4, 7]) if variant == 'modelnet40' else 1024
    N = rng.choice([1, 2, 3, 5, 8, rng.randint(1, 25)])
    bs = rng.choice([1, 1, 2, 3, 4, N, max(1, N - 1), N + 1])
    plan.update(N=N, bs=bs, extra=rng.choice([0, 0, 1, 5]),
                augment=rng.random() < 0.5,
                dtype=rng.choice(['float64', 'float32']),
                labels=[rng.randint(0, 39) for _ in range(N)],
                lab_np=rng.random() < 0.5)
    n = N // bs
    plan['nclients'] = rng.choice([1, 1, 1, 2, 3])
    rate = rng.choice([0, 0, 0.2])
    for _ in range(rng.randint(1, 12)):
      m = rng.random()
      cl = rng.randrange(plan['nclients'])
      if m < 0.45:
        # only indexed access is meant for several workers
        if plan['nclients'] > 1 and n:
          o = dict(op='get', i=rng.randrange(n))
        else:
          o = dict(op='call')
      elif m < 0.65 and n:
        o = dict(op='get', i=rng.randrange(n))
      elif m < 0.75 and plan['nclients'] == 1:
        o = dict(op='end')
      elif m < 0.85 and plan['nclients'] == 1:
        o = dict(op='calls', n=rng.randint(1, n + 1))
      elif m < 0.95:
        o = dict(op='iter')
      else:
        o = dict(op='len')
      if rng.random() < rate and o['op'] in ('call', 'get'):
        o['faults'] = [[rng.randrange(4), rng.choice(gen.FAULT_KINDS)]]
      plan['lists']['ops'].append(dict(o, cl=cl))
    plan['sched'] = gen.sched(rng, plan['nclients'])
    return plan

  def run(self, plan, sim):
    cls = generator_class(plan['variant'], plan['samples'])
    rng = np.random.RandomState(plan['seed'] % (2**32))
    N, S = plan['N'], plan['samples']
    points = rng.uniform(0.5, 1.5, [N, S + plan['extra'], 3]).astype(
        plan['dtype'])
    labels = plan['labels'][:N]
    if plan['lab_np']:
      labels = np.array(labels)
    st, g = sim.call(lambda: cls(points, labels, plan['bs'],
                                 augment=plan['augment']))
    if st == 'err':
      raise Violation('construction', f'{type(g).__name__}: {short(g)}')
    h = History(plan, points.copy(), g, sim)
    parts = [[o for o in plan['lists']['ops'] if o['cl'] == i]
             for i in range(plan['nclients'])]
    parts = [p for p in parts if p]

    def client(ops):
      def go(c):
        for k, o in enumerate(ops):
          h.op(o, c.idx, k)
      return go
    if parts:
      sim.run_clients([client(p) for p in parts])
    if not np.array_equal(points, h.points):
      raise Violation('data', 'the data set was modified')


class History:
  """What one epoch has delivered so far."""

  def __init__(self, plan, points, g, sim):
    self.plan, self.points, self.g, self.sim = plan, points, g, sim
    self.n = plan['N'] // plan['bs']
    self.next = 0
    self.epoch = {}

  def op(self, o, ci, k):
    sim, g = self.sim, self.g
    sim.event('op', ci, k, o['op'])
    if o['op'] == 'len':
      st, val = sim.call(lambda: len(g))
      if st == 'err' or val != self.n:
        raise Violation('len', f'{val!r} batches of {self.plan["bs"]} from '
                        f'{self.plan["N"]} samples')
    elif o['op'] == 'end':
      st, val = sim.call(g.on_epoch_end)
      if st == 'err':
        raise Violation('unexpected-error', f'on_epoch_end: {short(val)}')
      self.epoch = {}
      self.next = 0
    elif o['op'] == 'calls':
      for _ in range(o['n']):
        self.fetch(None, g, ())
    elif o['op'] == 'call':
      self.fetch(None, g, o.get('faults', ()))
    elif o['op'] == 'get':
      if o['i'] >= self.n:
        return
      self.fetch(o['i'], lambda: g[o['i']], o.get('faults', ()))
    elif o['op'] == 'iter':
      for i in range(self.n):
        self.fetch(i, lambda j=i: g[j], ())
    sim.ops_ok += 1

  def fetch(self, i, fn, faults):
    sim = self.sim
    if i is None:
      if self.next >= self.n:
        return     # the epoch is over
      i = self.next
      self.next += 1
    fl = [Fault(p, kind) for p, kind in faults]
    st, val = sim.call(fn, fl)
    if st == 'err' and any(f.fired for f in fl):
      sim.probe('retry')
      st, val = sim.call(fn)
    if st == 'err':
      raise Violation('unexpected-error', f'batch {i}: '
                      f'{type(val).__name__}: {short(val)}')
    self.check(i, val)

  def check(self, i, val):
    plan = self.plan
    bs, S = plan['bs'], plan['samples']
    pts, fts, lab = [np.asarray(v) for v in val]
    if list(pts.shape) != [bs, S, 3] or list(fts.shape) != [bs, S, 1] or \
        list(lab.shape) != [bs]:
      raise Violation('shape', f'batch {i}: {pts.shape} {fts.shape} {lab.shape}')
    if (fts != 1).any():
      raise Violation('features', f'batch {i}: features are not all one')
    if list(np.asarray(self.g.sizes)) != [S] * bs:
      raise Violation('sizes', f'{self.g.sizes}')
    got = []
    for k in range(bs):
      ratio = pts[k][None] / self.points[:, :S].astype(np.float64)
      r0 = ratio[:, :1]
      ok = (np.abs(ratio - r0) <= 1e-5).all((1, 2))
      lo, hi = (0.9 - 1e-5, 1.1 + 1e-5) if plan['augment'] else \
          (1 - 1e-6, 1 + 1e-6)
      ok &= ((r0 >= lo) & (r0 <= hi)).all((1, 2))
      ids = np.flatnonzero(ok)
      if len(ids) != 1:
        raise Violation('points', f'batch {i}, entry {k} is no (rescaled) '
                        'sample of the data set')
      s = int(ids[0])
      if lab[k] != plan['labels'][s]:
        raise Violation('label', f'batch {i}, entry {k} is sample {s} with '
                        f'label {plan["labels"][s]}, delivered with {lab[k]}')
      got.append(s)
    self.sim.event('batch', i, got)
    self.sim.checks += 1
    if i in self.epoch:
      if self.epoch[i] != got:
        raise Violation('unstable', f'batch {i} was {self.epoch[i]}, now {got}')
      return
    seen = [s for b in self.epoch.values() for s in b]
    if len(set(got)) != bs or set(got) & set(seen):
      raise Violation('repeated', f'batch {i} is {got}, delivered before in '
                      f'this epoch: {seen}')
    self.epoch[i] = got
