"""C24: what is saved of a layer, block or model is all of it.

A run is a history of calls, training steps, saves (checkpoints, weight files,
arrays of the variables), restores and restarts.  A restart builds the objects
anew with other random numbers, as a new process does, and restores the last
completed save.  Operations fail, or the process is killed at one of them, also
while saving and restoring.  The restored objects have to compute on given data
what the objects computed when they were saved, and to repeat the operations
that followed the save.
"""
import os
import random

import numpy as np

from sim import core, fs, gen, scen_fn, world
from sim.core import Fault, SimCrash, Skip, Violation
from sim.scen import conv_spec, scenario, short
from sim.world import digest_tree, npy, tree_close

KINDS = dict(conv=6, block=3, model=2)


class Life:
  """The objects of one process."""

  def __init__(self, sim, plan, k, called=True):
    import tensorflow as tf
    seed = core.mix(plan['seed'], k)
    random.seed(seed)
    np.random.seed(seed % 2**32)
    tf.random.set_seed(seed % 2**31)
    self.plan = plan
    self.worlds, self.compiled = [], {}
    # objects whose variables all exist
    self.built = set(range(plan['nobj'])) if called else set()
    for i in range(plan['nobj']):
      w = world.World(sim)
      spec = dict(plan['object'], seed=(seed + 7919 * i) % 2**28)
      w.spec[spec['name']] = spec
      if called or spec['t'] != 'model':
        build = scen_fn.BUILD[spec['t']]
        w.real[spec['name']], _ = build(w, spec)
      else:
        w.real[spec['name']] = self.plain_model(spec)
      if not called and spec['t'] == 'block':
        w.real[spec['name']] = self.plain_block(w, spec)
      self.worlds.append(w)
    self.name = spec['name']

  @staticmethod
  def plain_model(s):
    """A model that was not called yet."""
    cls = scen_fn.model_class(s['variant'], s['B'])
    rad = np.array(s['levels'])
    return cls(list(s['sizes']), rad, rad * 2.0, layer_type=s['type'],
               sampling_method='cell average', dropout_rate=0.0)

  @staticmethod
  def plain_block(w, s):
    """A block that was not called yet."""
    from pylib.pc import layers as L
    kw = world.conv_kwargs(s['conv'])
    kw.update(layer_type=s['type'], projection_shortcuts=s['proj'])
    if s['bt'] == 'plain':
      return L.PointResNet(s['C'], s['blocks'], s['D'], **kw)
    if s['bt'] == 'bottle':
      return L.PointResNetBottleNeck(s['C'], s['bottle'], s['blocks'], s['D'],
                                     **kw)
    return L.PointResNetSpatialBottleNeck(s['C'], s['blocks'], s['D'], **kw)

  def obj(self, i):
    return self.worlds[i].real[self.name]

  def variables(self):
    return [v for i in range(len(self.worlds)) for v in self.obj(i).variables]

  def checkpoint(self):
    import tensorflow as tf
    return tf.train.Checkpoint(**{f'object{i}': self.obj(i)
                                  for i in range(len(self.worlds))})

  # -- calls -------------------------------------------------------------------
  def forward(self, i, a, train):
    import tensorflow as tf
    self.built.add(i)
    s = dict(self.plan['fn'], train=train)
    if s['kind'] == 'model':
      return [self.obj(i)(a['pts'], a['feat'], a['sizes'], tf.constant(train))]
    return [tf.convert_to_tensor(x)
            for x in scen_fn.FUNCS[s['kind']](s, a, self.worlds[i])]

  def call(self, i, a, how='eager', train=False):
    import tensorflow as tf
    model = self.plan['fn']['kind'] == 'model'
    if how == 'graph':
      if model:
        return npy(self.forward(i, a, train))
      key = i, train
      if key not in self.compiled:
        self.compiled[key] = tf.function(
            lambda x: self.forward(i, x, train),
            input_signature=[scen_fn.signature(a)])
      return npy(self.compiled[key](a))
    if model:
      tf.config.run_functions_eagerly(True)
    try:
      return npy(self.forward(i, a, train))
    finally:
      if model:
        tf.config.run_functions_eagerly(False)

  def train(self, i, a, lr, mode):
    """A step along the gradient; returns the outputs and the gradients."""
    import tensorflow as tf
    model = self.plan['fn']['kind'] == 'model'
    if model:
      tf.config.run_functions_eagerly(True)
    try:
      with tf.GradientTape() as tape:
        out = self.forward(i, a, mode)
        x = tf.reshape(out[0], [-1])
        loss = tf.reduce_sum(
            x * tf.math.sin(tf.cast(tf.range(tf.size(x)), tf.float32)))
      params = self.obj(i).trainable_variables
      grads = tape.gradient(loss, params)
    finally:
      if model:
        tf.config.run_functions_eagerly(False)
    for v, g in zip(params, grads):
      if g is not None:
        g = tf.convert_to_tensor(g)
        v.assign_sub(lr * g / (1.0 + tf.norm(g)))
    return npy(out)


class Save:

  def __init__(self, method, place, expected):
    self.method, self.place, self.expected = method, place, expected
    self.after, self.open, self.done = [], True, False


@scenario('C24')
class C24:

  def gen(self, rng, seed, tier):
    kind = rng.choices(list(KINDS), list(KINDS.values()))[0]
    D = 3 if kind == 'model' else rng.choice([2, 3, 3, 4])
    B = rng.choice([1, 2, 3])
    s = dict(kind=kind, D=D, B=B,
             input='padded' if kind == 'model' else
             rng.choice(['padded', 'ids']),
             centers='same' if kind == 'model' else
             rng.choice(['same', 'other']),
             radius=rng.choice([0.3, 0.5, 0.8]), bw=rng.choice([0.2, 0.4]),
             srt=False, pad=False, given=rng.random() < 0.3, padded=False, C=1)
    s['cell'] = s['radius']
    if kind == 'conv':
      o = dict(conv_spec(rng, D, kinds=('mc', 'pc', 'kp', 'kp', '1x1')),
               t='layer', name='layer')
      s['C'] = o['cin']
    elif kind == 'block':
      C = rng.choice([2, 4])
      o = dict(t='block', name='block', C=C, D=D, blocks=rng.choice([1, 1, 2]),
               bt=rng.choice(['plain', 'bottle', 'spatial']),
               proj=rng.random() < 0.5, bottle=rng.choice([2, 4]))
      k = o['bottle'] if o['bt'] == 'bottle' else C
      o['conv'] = conv_spec(rng, D, k, k, kinds=('mc', 'pc', 'kp', 'kp'))
      if o['conv']['lt'] == 'kp':
        o['conv']['deform'] = rng.random() < 0.2
      o['type'] = {'mc': 'MCConv', 'pc': 'PointConv',
                   'kp': 'KPConv'}[o['conv']['lt']]
      s['C'] = C
    else:
      variant = rng.choice(['modelnet40', 'modelnet40_small'])
      L = rng.choice([1, 2])
      lv = sorted(rng.sample([0.2, 0.4, 0.7], L))
      sizes = [4 * rng.choice([1, 2]) for _ in range(L)] + [8, 8, 5]
      if variant == 'modelnet40_small':
        lv = lv + [4.0]
        sizes = [1] + [4 for _ in lv] + [8, 5]
      o = dict(t='model', name='model', variant=variant, B=B, levels=lv,
               sizes=sizes, type=rng.choice(['MCConv', 'PointConv', 'KPConv']))
    o.pop('seed', None)
    nmax = 5 if kind == 'model' else 7

    def data():
      els = [gen.points(rng, rng.randint(1, nmax), D, 'uniform', 1.0)
             for _ in range(B)]
      near = [[[gen.f32(v + rng.uniform(-0.1, 0.1)) for v in p] for p in x]
              for x in els]
      return dict(els=els, cels=near, extra=0, fs=rng.getrandbits(31))
    nobj = rng.choice([1, 1, 2]) if kind != 'model' else 1
    rate = rng.choice([0, 0.15, 0.4])
    crash = rng.choice([0, 0.1, 0.3])
    opset = dict(call=2, step=4, save=4, restart=2, restore=1)
    method = dict(ckpt=4, files=2, arrays=2)
    if kind == 'model' and o['variant'] == 'modelnet40_small':
      method['weights'] = 4
    ops = []
    for _ in range(rng.randint(2, 4 if kind == 'model' else 8)):
      k = rng.choices(list(opset), list(opset.values()))[0]
      op = dict(op=k)
      if k in ('call', 'step'):
        op.update(i=rng.randrange(nobj), data=data(),
                  train=kind == 'block' and rng.random() < 0.5 or
                  kind == 'model' and B > 1 and rng.random() < 0.5)
        if k == 'step':
          op['lr'] = rng.choice([0.05, 0.3])
        elif rng.random() < (0.3 if kind == 'conv' else 0.1):
          op['how'] = 'graph'
      elif k == 'save':
        op['method'] = rng.choices(list(method), list(method.values()))[0]
        op['late'] = rng.random() < 0.3
      else:
        op['which'] = rng.choice([0, 0, 0, 1])
        if k == 'restart':
          op['called'] = rng.random() < 0.5
          op['replay'] = rng.choice([0, 1, 3])
      if rng.random() < rate:
        size = dict(save=60, restart=60, restore=60).get(k, 400)
        if kind == 'model':
          size *= 3
        op['faults'] = [[int(size * rng.random()**1.5),
                         rng.choice(gen.FAULT_KINDS)]]
      elif rng.random() < crash:
        op['crash'] = [None, int((60 if k == 'save' else 400) *
                                 rng.random()**1.5)]
      ops.append(op)
    if not any(o2['op'] == 'save' for o2 in ops):
      ops.insert(rng.randrange(len(ops)), dict(
          op='save', method=rng.choices(list(method), list(method.values()))[0],
          late=False))
    return dict(prop='C24', seed=seed, fn=s, object=o, nobj=nobj,
                probe=[data() for _ in range(nobj)], first=rng.random() < 0.7,
                graph=rng.random() < (0.2 if kind == 'conv' else 0.05),
                last=dict(op='restart', called=rng.random() < 0.5,
                          which=0, replay=rng.choice([1, 3])),
                lists=dict(ops=ops))

  # -- running -------------------------------------------------------------------
  def args(self, plan, d):
    import tensorflow as tf
    return {k: tf.constant(v) for k, v in
            scen_fn.arrays(plan['fn'], d, 0.0).items()}

  def probe(self, plan, life):
    out = []
    for i in range(plan['nobj']):
      a = self.args(plan, plan['probe'][i])
      out.append(life.call(i, a))
      if plan['graph']:
        out.append(life.call(i, a, 'graph'))
    return out

  def run(self, plan, sim):
    self.plan, self.sim = plan, sim
    with fs.Scratch() as sc:
      self.root = sc.path('state')
      os.mkdir(self.root)
      self.saves, self.lives = [], 0
      self.client()
      try:
        self.history(plan, sim)
      finally:
        core._tls.client = None

  def client(self):
    core._tls.client = core.Client(0)

  def start(self, called):
    self.life = Life(self.sim, self.plan, self.lives, called)
    self.lives += 1
    self.manager = None

  def history(self, plan, sim):
    ops = plan['lists']['ops']
    if not any(o['op'] == 'save' for o in ops):
      raise Skip('no save')
    self.start(True if plan['fn']['kind'] == 'model' else plan['first'])
    for k, op in enumerate(ops):
      self.one(k, op)
    if any(s.done for s in self.saves):
      self.one(len(ops), plan['last'])

  def one(self, k, op):
    """One operation with its failure or crash."""
    sim, me = self.sim, core.current()
    me.crash = op.get('crash')
    faults = [Fault(p, kind) for p, kind in op.get('faults', ())]
    text = f"{op['op']} ({k})"
    try:
      st, val = self.execute(op, faults)
      me.crash = None
    except SimCrash:
      sim.probe('crashed in ' + op['op'])
      self.client()
      self.restart(dict(called=True, which=0, replay=0), (), text + ' crashed')
      return
    if st == 'skip':
      return
    if st == 'err':
      if not any(f.fired for f in faults):
        raise Violation('unexpected-error',
                        f'{text}: {type(val).__name__}: {short(val)}')
      sim.probe('failed in ' + op['op'])
      sim.event('failed', op['op'], type(val).__name__)
      for s in self.saves:
        s.open = False
      if op['op'] in ('restart', 'restore'):
        # once more without a failure
        self.one(k, {x: v for x, v in op.items() if x != 'faults'})
      return
    sim.ops_ok += 1
    if op['op'] in ('call', 'step'):
      sim.event(op['op'], digest_tree(val))
      for s in self.saves:
        if s.open and s.done:
          s.after.append((op, val))

  def execute(self, op, faults):
    name = op['op']
    if name in ('call', 'step'):
      a = self.args(self.plan, op['data'])
      return self.sim.call(lambda: self.act(op, a), faults)
    if name == 'save':
      return self.save(op, faults)
    if name == 'restore':
      return self.restore(op, faults, 'restore in place')
    return self.restart(op, faults, 'restart')

  def act(self, op, a):
    if op['op'] == 'call':
      return self.life.call(op['i'], a, op.get('how', 'eager'), op['train'])
    return self.life.train(op['i'], a, op['lr'], op['train'])

  # -- saving ----------------------------------------------------------------------
  def save(self, op, faults):
    import tensorflow as tf
    sim, life, n = self.sim, self.life, len(self.saves)
    method = op['method']
    late = op['late'] and method != 'arrays'
    expected = None if late else self.quiet(lambda: self.probe(self.plan, life))
    rec = Save(method, os.path.join(self.root, f'save{n}'), expected)
    # saved without the variables that the first call creates
    rec.bare = self.plan['fn']['kind'] != 'conv' and \
        len(life.built) < self.plan['nobj']
    self.saves.append(rec)
    if method == 'ckpt':
      # an interrupted save may be complete
      rec.place = os.path.join(self.root, 'ckpt', f'ckpt-{n}')

    def go():
      if method == 'ckpt':
        if self.manager is None:
          self.manager = tf.train.CheckpointManager(
              life.checkpoint(), os.path.join(self.root, 'ckpt'), 3)
        self.manager.save(checkpoint_number=n)
      elif method == 'files':
        os.mkdir(rec.place)
        rec.place = life.checkpoint().write(os.path.join(rec.place, 'w'))
      elif method == 'weights':
        os.mkdir(rec.place)
        rec.place = os.path.join(rec.place, 'w')
        life.obj(0).save_weights(rec.place)
      else:
        rec.place = [v.numpy() for v in life.variables()]
    st, val = sim.call(go, faults)
    if st == 'ok':
      if late:
        rec.expected = self.quiet(lambda: self.probe(self.plan, life))
      rec.done = True
      sim.probe('saved as ' + method)
      sim.event('saved', method, digest_tree(rec.expected))
    return st, val

  def quiet(self, fn):
    """A call without failures."""
    me = core.current()
    crash, me.crash = me.crash, None
    st, val = self.sim.call(fn)
    me.crash = crash
    if st == 'err':
      raise Violation('unexpected-error',
                      f'probe: {type(val).__name__}: {short(val)}')
    return val

  def pick(self, op):
    done = [s for s in self.saves if s.done]
    if not done:
      return None
    return done[-1 - op['which'] % len(done)]

  def load(self, rec):
    import tensorflow as tf
    life = self.life
    if rec.method in ('ckpt', 'files'):
      ck = life.checkpoint()
      if rec.method == 'ckpt':
        ck.restore(rec.place).expect_partial()
      else:
        ck.read(rec.place).expect_partial()
      self.keep = ck
    elif rec.method == 'weights':
      self.keep = life.obj(0).load_weights(rec.place)
    else:
      mine = life.variables()
      if [tuple(v.shape) for v in mine] != [x.shape for x in rec.place]:
        raise Violation('variables-differ', f'{len(mine)} variables after a '
                        f'restart, {len(rec.place)} before')
      for v, x in zip(mine, rec.place):
        v.assign(x)

  def restore(self, op, faults, text):
    rec = self.pick(op)
    if rec is None:
      return 'skip', None
    if rec.method == 'ckpt' and not os.path.exists(rec.place + '.index'):
      return 'skip', None     # deleted by the manager
    if rec.bare:
      return 'skip', None
    st, val = self.sim.call(lambda: self.load(rec), faults)
    if st == 'ok':
      me = core.current()
      me.crash = None
      self.check(rec, text)
      for s in self.saves:
        s.open = False
    return st, val

  def check(self, rec, text):
    got = self.quiet(lambda: self.probe(self.plan, self.life))
    self.same(rec.expected, got, f'{text}, saved as {rec.method}')
    self.sim.probe('checked ' + text.split()[0])

  def same(self, want, got, text):
    self.sim.checks += 1
    if want is None:
      raise core.HarnessError('no expectation')
    for i, (x, y) in enumerate(zip(want, got)):
      for u, v in zip(x, y):
        size = float(np.abs(u[np.isfinite(u)]).max(initial=0))
        d = tree_close(u, v, rtol=1e-5, atol=1e-5 * size + 1e-7)
        if d:
          raise Violation('restored-differs', f'{text}: output {i} {d}')

  def restart(self, op, faults, text):
    """A new process restores the last save and repeats what followed it."""
    rec = self.pick(op)
    for s in self.saves:
      s.open = False
    if rec is not None and rec.method == 'ckpt':
      rec = self.newest(rec, op)
    # variables are given by position: they must exist
    self.start(rec is None or rec.method == 'arrays' or
               op['called'] and not rec.bare)
    self.sim.event('restart', self.lives, rec and rec.method)
    if rec is None:
      return 'ok', None
    st, val = self.sim.call(lambda: self.load(rec), faults)
    if st != 'ok':
      return st, val
    me = core.current()
    me.crash = None
    self.check(rec, text)
    for k, (o, want) in enumerate(rec.after[:op['replay']]):
      a = self.args(self.plan, o['data'])
      got = self.quiet(lambda o=o, a=a: self.act(o, a))
      self.same([want], [got], f"{text}, saved as {rec.method}, then "
                f"{o['op']} {k}")
      self.sim.probe('repeated ' + o['op'])
    return 'ok', None

  def newest(self, rec, op):
    """The checkpoint a new process finds."""
    import tensorflow as tf
    if op['which']:
      return rec if os.path.exists(rec.place + '.index') else None
    path = tf.train.latest_checkpoint(os.path.join(self.root, 'ckpt'))
    for s in self.saves:
      if path and s.method == 'ckpt' and s.place == path and s.expected:
        return s
    self.sim.probe('checkpoint of an interrupted save')
    return None
