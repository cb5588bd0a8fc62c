"""C25: complete runs of the dataset scripts, from the files to the last epoch.

A script is executed from its first to its last statement on a small data set,
its network replaced by a small classifier (in some runs reduced to one level)
that records what it is called with.  The losses, accuracies and learning rates
it prints, the parameters after every step and the saved weights are compared
with a float64 reference of the training the script describes.  Operations
fail or the process is killed; the weights of completed epochs must be there
afterwards and the next run has to complete.
"""
import ast
import os
import random
import re

import numpy as np

from sim import core, fs, gen, scen_ds
from sim.core import Fault, HarnessError, SimCrash, Violation
from sim.scen import scenario, short

_body = {}


def body(variant):
  if variant not in _body:
    path = os.path.join(core.REPO, variant + '.py')
    with open(path) as f:
      _body[variant] = path, ast.parse(f.read()).body
  return _body[variant]


def run_script(variant, const, model, out):
  """Executes all statements of a script, with another model."""
  path, stmts = body(variant)
  # the progress is written to `out`
  ns = {'__name__': '__main__', '__file__': path,
        'print': lambda *a, **k: out.append(' '.join(str(x) for x in a))}
  found = set()
  for st in stmts:
    if isinstance(st, ast.Assign) and len(st.targets) == 1 and \
        isinstance(st.targets[0], ast.Name) and \
        isinstance(st.value, ast.Constant) and st.targets[0].id in const and \
        st.targets[0].id not in found:
      found.add(st.targets[0].id)
      ns[st.targets[0].id] = const[st.targets[0].id]
      continue
    exec(compile(ast.Module([st], []), path, 'exec'), ns)  # pylint: disable=exec-used
    if isinstance(st, ast.ClassDef) and st.name == 'mymodel':
      ns['mymodel'] = model(ns['mymodel'])
  if found != set(const):
    raise HarnessError(f'{variant}.py does not set {set(const) - found}')
  return ns


# -- the network ---------------------------------------------------------------------

class Record:
  """Calls of the networks of one run of a script."""

  def __init__(self, plan, sim):
    self.plan, self.sim, self.calls = plan, sim, []
    self.nets = 0

  def call(self, points, features, sizes, training, before, logits):
    me = core.current()
    active, me.active = me.active, False
    try:
      self.calls.append(dict(
          points=np.array(points, np.float64), train=bool(np.asarray(training)),
          features=np.array(features), sizes=np.array(sizes),
          before=before, logits=np.array(logits, np.float64)))
    finally:
      me.active = active


def simple_model(rec):
  """A linear classifier of the centred mean point."""
  import tensorflow as tf
  plan = rec.plan

  def make(base):
    root = tf.keras.Model if issubclass(base, tf.keras.Model) else tf.Module

    class Simple(root):

      def __init__(self, feature_sizes, *args, **kw):
        super().__init__()
        rec.nets += 1
        r = np.random.RandomState(plan['seed'] % 2**32)
        n = feature_sizes[-1]
        val = lambda *s: tf.constant(r.uniform(-1, 1, s), tf.float32)
        self.W = tf.Variable(val(3, n), name='W')
        self.b = tf.Variable(val(n), name='b')
        self.m = tf.Variable(tf.zeros([3]), trainable=False, name='m')

      def state(self):
        return dict(W=self.W.numpy().astype(np.float64),
                    b=self.b.numpy().astype(np.float64),
                    m=self.m.numpy().astype(np.float64))

      def __call__(self, points, features, sizes, training):
        me = core.current()
        active, me.active = me.active, False
        before = self.state()
        me.active = active
        x = tf.reduce_mean(tf.cast(points, tf.float32), 1)
        if bool(training):
          mean = tf.reduce_mean(x, 0)
          self.m.assign(0.9 * self.m + 0.1 * mean)
          x = x - 0.5 * mean
        else:
          x = x - 0.5 * self.m
        logits = tf.matmul(x, self.W) + self.b
        rec.call(points, features, sizes, training, before, logits)
        return logits
    rec.cls = Simple
    return Simple
  return make


def reduced_model(rec):
  """The network of the script with a single level."""
  import tensorflow as tf

  def make(base):

    class Reduced(base):

      def __init__(self, feature_sizes, radii, conv_radii, **kw):
        rec.nets += 1
        super().__init__([8, 8, 8, feature_sizes[-1]], np.array([0.4]),
                         np.array([0.6]), **kw)

      def state(self):
        return {i: v.numpy().astype(np.float64)
                for i, v in enumerate(self.variables)}

      def __call__(self, points, features, sizes, training):
        me = core.current()
        active, me.active = me.active, False
        before = self.state()
        me.active = active
        logits = super().__call__(points, features, sizes,
                                  tf.constant(training))
        rec.call(points, features, sizes, training, before, logits)
        return logits
    return Reduced
  return make


# -- reference -----------------------------------------------------------------------

def softmax(x):
  e = np.exp(x - x.max(1, keepdims=True))
  return e / e.sum(1, keepdims=True)


class Reference:
  """Recomputes an interrupted or complete run."""

  def __init__(self, plan, run, rec, data, out, sim):
    self.plan, self.run, self.rec, self.sim = plan, run, rec, sim
    self.data, self.out = data, out
    self.S = plan['samples']
    self.bs = plan['bs']
    self.n = {p: len(data[p]) // self.bs for p in ('train', 'test')}
    self.source = {p: np.array([
        np.array(s['rows'])[:self.S, :3].astype(np.float32) for s in data[p]],
        np.float64) for p in ('train', 'test')}
    self.labels = {p: scen_ds.want_labels(data, p) for p in ('train', 'test')}
    self.vel = {}

  def bad(self, kind, text):
    raise Violation(kind, f"{self.plan['variant']}.py: {text}")

  def samples(self, c, part, where):
    """Samples of the batch of a call."""
    pts = c['points']
    if pts.shape != (self.bs, self.S, 3):
      self.bad('batch', f'{where} has points of shape {pts.shape}')
    if list(c['sizes']) != [self.S] * self.bs:
      self.bad('batch', f"{where} has sizes {c['sizes']}")
    ids = []
    for k in range(self.bs):
      ratio = pts[k][None] / self.source[part]
      r0 = ratio[:, :1]
      lo, hi = (0.9 - 1e-5, 1.1 + 1e-5) if part == 'train' else \
          (1 - 1e-6, 1 + 1e-6)
      ok = (np.abs(ratio - r0) <= 1e-5).all((1, 2)) & \
          ((r0 >= lo) & (r0 <= hi)).all((1, 2))
      hit = np.flatnonzero(ok)
      if len(hit) != 1:
        self.bad('batch', f'{where}, entry {k} is no sample of the {part} set')
      ids.append(int(hit[0]))
    return ids

  def loss(self, c, ids, part):
    """(loss, number of correct ones or None if that is not clear, p)."""
    p = softmax(c['logits'])
    y = np.array([self.labels[part][i] for i in ids])
    loss = -np.log(np.clip(p[np.arange(len(y)), y], 1e-7, 1)).mean()
    top = np.sort(p, 1)
    clear = p.shape[1] == 1 or bool((top[:, -1] - top[:, -2] > 1e-6).all())
    return loss, (p.argmax(1) == y).sum() if clear else None, p, y

  def check(self, complete):
    """Compares everything that was recorded."""
    calls, step, epoch = self.rec.calls, 0, 0
    self.ends = []      # parameters after each epoch
    pos = 0
    ntr, nte = self.n['train'], self.n['test']
    lines = [self.numbers(x) for x in self.out]
    self.printed = {k: [x[1:] for x in lines if x and x[0] == k]
                    for k in ('Training', 'Validation', 'LR')}
    while pos < len(calls):
      where = f'epoch {epoch}'
      part = calls[pos:pos + ntr]
      lr = 0.001 * 0.7**(step // (20 * ntr))
      if len(self.printed['LR']) > epoch:
        self.close(self.printed['LR'][epoch][0], lr, 1e-6, where +
                   ' learning rate')
      seen, losses, hits = [], [], []
      for k, c in enumerate(part):
        at = f'{where}, training batch {k}'
        if not c['train']:
          self.bad('mode', f'{at} is not evaluated in training mode')
        ids = self.samples(c, 'train', at)
        seen += ids
        loss, hit, p, y = self.loss(c, ids, 'train')
        losses.append(loss)
        hits.append(hit)
        if pos + k + 1 < len(calls):
          lr = 0.001 * 0.7**(step // (20 * ntr))
          self.update(c, calls[pos + k + 1], p, y, lr, at)
        step += 1
      if len(set(seen)) != len(seen):
        self.bad('repeated', f'{where} trains with samples {seen}')
      if len(part) == ntr:
        self.report('Training', epoch, losses, hits, where)
      pos += len(part)
      part = calls[pos:pos + nte]
      seen, losses, hits = [], [], []
      for k, c in enumerate(part):
        at = f'{where}, validation batch {k}'
        if c['train']:
          self.bad('mode', f'{at} is evaluated in training mode')
        ids = self.samples(c, 'test', at)
        seen += ids
        loss, hit, p, y = self.loss(c, ids, 'test')
        losses.append(loss)
        hits.append(hit)
        if pos + k + 1 < len(calls):
          self.same(c['before'], calls[pos + k + 1]['before'], at)
      if len(set(seen)) != len(seen):
        self.bad('repeated', f'{where} validates with samples {seen}')
      pos += len(part)
      if len(part) == nte:
        self.report('Validation', epoch, losses, hits, where)
        self.ends.append(part[-1]['before'])
      epoch += 1
    if complete:
      E = self.plan['epochs']
      if len(calls) != E * (ntr + nte):
        self.bad('epochs', f'{len(calls)} batches in {E} epochs of {ntr} '
                 f'training and {nte} validation batches')
      for k in ('Training', 'Validation'):
        if len(self.printed[k]) != E:
          self.bad('report', f'{len(self.printed[k])} lines of {k} results in '
                   f'{E} epochs')
    self.sim.checks += len(calls)
    self.sim.probe('batches', len(calls))
    self.sim.probe('epochs', len(self.ends))

  @staticmethod
  def numbers(text):
    m = re.search(r'(Training|Validation):\s*Loss: ([-\d.naif]+), '
                  r'Accuracy: ([-\d.naif]+)%', text)
    if m:
      return m.group(1), float(m.group(2)), float(m.group(3))
    m = re.search(r'LR: ([\d.]+)', text)
    return ('LR', float(m.group(1))) if m else None

  def close(self, got, want, tol, what):
    if not abs(got - want) <= tol:
      self.bad('report', f'{what} printed as {got}, it is {want:.6f}')

  def report(self, name, epoch, losses, hits, where):
    if len(self.printed[name]) <= epoch:
      return
    loss, acc = self.printed[name][epoch]
    self.close(loss, np.mean(losses), 6e-4 + 1e-4 * np.mean(losses),
               f'{where}, {name} loss')
    if None not in hits:
      self.close(acc, 100 * np.sum(hits) / (len(hits) * self.bs), 1e-3,
                 f'{where}, {name} accuracy')
    self.sim.probe('reports')

  def same(self, a, b, at):
    for k in a:
      if not np.array_equal(a[k], b[k]):
        self.bad('validation', f'variable {k} changes in {at}')

  def update(self, c, nxt, p, y, lr, at):
    """RMSprop along the gradient of the loss."""
    if self.plan['net'] != 'simple':
      a, b = c['before'], nxt['before']
      if all(np.array_equal(a[k], b[k]) for k in a):
        self.bad('update', f'{at} changes nothing')
      return
    s = c['before']
    x = c['points'].mean(1)
    mean = x.mean(0)
    x = x - 0.5 * mean
    d = (p - np.eye(p.shape[1])[y]) / len(y)
    g = dict(W=x.T @ d, b=d.sum(0))
    for k in ('W', 'b'):
      v = 0.9 * self.vel.get(k, 0) + 0.1 * g[k]**2
      self.vel[k] = v
      want = -lr * g[k] / np.sqrt(v + 1e-7)
      got = nxt['before'][k] - s[k]
      # rounding of the gradient and of the parameter
      tol = 5e-3 * np.abs(want) + 1e-6 + 3e-3 * lr * (np.abs(g[k]) < 1e-3)
      off = np.abs(got - want) > tol
      if off.any():
        i = tuple(int(z) for z in np.argwhere(off)[0])
        self.bad('update', f'{at} changes {k}{list(i)} by {got[i]:.6g} instead '
                 f'of {want[i]:.6g} (gradient {g[k][i]:.4g}, learning rate '
                 f'{lr:.4g})')
    want = 0.9 * s['m'] + 0.1 * mean
    if not np.allclose(nxt['before']['m'], want, rtol=1e-5, atol=1e-6):
      self.bad('update', f'{at} runs the network {"more than once"}')


# -- scenario ------------------------------------------------------------------------

def data_set(plan):
  """The files of a run; coordinates away from zero."""
  rng = random.Random(plan['data'])
  d = dict(cats=plan['cats'], train=[], test=[])
  count = {}
  for part in ('train', 'test'):
    for c in plan[part]:
      count[c] = count.get(c, 0) + 1
      rows = [['%.5f' % (rng.choice([-1, 1]) * rng.uniform(0.3, 1))
               for _ in range(3)] for _ in range(plan['samples'])]
      d[part].append(dict(cat=plan['cats'][c], rows=rows, name='%s_%04d' % (
          plan['cats'][c], count[c])))
  return d


@scenario('C25')
class C25:

  def gen(self, rng, seed, tier):
    variant = rng.choice(['modelnet40', 'modelnet40', 'modelnet40_small'])
    small = variant == 'modelnet40_small'
    cats = rng.sample(scen_ds.CATS, rng.choice([2, 3, 4]))
    bs = rng.choice([1, 2, 2, 3])
    ntr, nte = (bs * rng.choice([1, 2, 2, 3]) + rng.randrange(bs),
                bs * rng.choice([1, 1, 2]) + rng.randrange(bs))
    epochs = rng.choice([1, 2, 3, 3, 4])
    net = 'simple'
    if not small and rng.random() < 0.06:
      net, epochs, ntr, nte, bs = 'reduced', 2, 4, 2, 2
    elif rng.random() < 0.12:
      # the learning rate changes after twenty epochs
      ntr, nte, epochs = bs, bs, rng.choice([21, 22])
    samples = 1024 if small else rng.choice([2, 3, 5])
    plan = dict(prop='C25', seed=seed, variant=variant, cats=cats, bs=bs,
                epochs=epochs, net=net, samples=samples, num=rng.choice([10, 40]),
                train=[rng.randrange(len(cats)) for _ in range(ntr)],
                test=[rng.randrange(len(cats)) for _ in range(nte)],
                data=rng.getrandbits(31), lists=dict(runs=[]))
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
      run = {}
      size = 300 * (ntr + nte) + epochs * (ntr + nte) * 120 // bs
      if net == 'reduced':
        size = 6000
      if rng.random() < 0.6:
        run['crash'] = [None, int(size * rng.random())]
      else:
        run['faults'] = [[int(size * rng.random()),
                          rng.choice(['oom', 'internal', 'cancelled',
                                      'memory'])]]
      plan['lists']['runs'].append(run)
    return plan

  def run(self, plan, sim):
    scen_ds.install()
    data = data_set(plan)
    cwd = os.getcwd()
    with fs.Scratch() as sc:
      scen_ds.write_set(sc, data, plan['num'])
      os.mkdir(sc.path('work'))
      os.chdir(sc.path('work'))
      try:
        with scen_ds.env(sc):
          self.saved = {}
          for k, run in enumerate(plan['lists']['runs'] + [{}]):
            self.one(plan, data, sim, k, run)
      finally:
        os.chdir(cwd)

  def one(self, plan, data, sim, k, run):
    import tensorflow as tf
    const = dict(points_per_file=plan['samples'], num_classes=plan['num'],
                 batch_size=plan['bs'], num_epochs=plan['epochs'])
    if plan['variant'] == 'modelnet40':
      const['samples_per_model'] = plan['samples']
    fl = [Fault(p, kind) for p, kind in run.get('faults', ())]
    seed = core.mix(plan['seed'], k)
    np.random.seed(seed % 2**32)
    random.seed(seed)
    tf.random.set_seed(seed % 2**31)
    me = core.Client(0)
    core._tls.client = me
    me.crash = run.get('crash')
    rec, out = Record(plan, sim), []
    model = dict(simple=simple_model, reduced=reduced_model)[plan['net']](rec)
    sim.event('run', k)
    try:
      try:
        st, val = sim.call(
            lambda: run_script(plan['variant'], const, model, out), fl,
            lines=bool(run.get('crash')))
      except SimCrash:
        st, val = 'crash', None
    finally:
      core._tls.client = None
    scen_ds._disk.settle([], sim)
    if st == 'err' and not any(f.fired for f in fl):
      raise Violation('run-failed', f"run {k} of {plan['variant']}.py failed "
                      'without a failure of its own: '
                      f'{type(val).__name__}: {short(val)}')
    if st == 'ok':
      sim.ops_ok += 1
    else:
      sim.probe('crashed' if st == 'crash' else 'failed')
      sim.probe('interrupted ' + ('training' if rec.calls else 'preparation'))
    ref = Reference(plan, run, rec, data, out, sim)
    ref.check(st == 'ok')
    sim.event('calls', len(rec.calls), len(out),
              [float(c['logits'].sum()) for c in rec.calls[-2:]])
    if plan['variant'] == 'modelnet40_small':
      self.weights(plan, rec, ref, st, sim)

  def weights(self, plan, rec, ref, st, sim):
    """The weights of every epoch before the last one of the run are saved."""
    E = len(ref.ends)
    per = ref.n['train'] + ref.n['test']
    done = E if st == 'ok' else (len(rec.calls) - 1) // per
    unclear = set()
    for e in range(done):
      self.saved[e] = ref.ends[e]
    if st != 'ok' and done < plan['epochs']:
      unclear.add(done)       # may have been written or not
    for e, want in list(self.saved.items()):
      if e in unclear:
        del self.saved[e]
        continue
      net = rec.cls([3, len(plan['cats'])]) if hasattr(rec, 'cls') else None
      if net is None:
        continue
      try:
        net.load_weights(os.path.join('saved_models', str(e))).expect_partial()
      except Exception as x:  # pylint: disable=broad-except
        raise Violation('weights', f'the weights of epoch {e} cannot be loaded: '
                        f'{type(x).__name__}: {short(x)}') from x
      got = net.state()
      for k in want:
        if not np.array_equal(got[k], want[k]):
          raise Violation('weights', f'the saved {k} of epoch {e} are not the '
                          'ones at its end')
      sim.probe('weights of an epoch')
