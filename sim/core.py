"""Deterministic simulator: client threads with a baton, seams, faults.

One `Sim` executes one plan (a JSON document).  Everything that is not decided
by the code under test is decided by the plan: which client runs at every step,
which underlying operation fails, and what every random draw returns.  A *step*
is one unit of simulated time: an eager TensorFlow operation (or native GPU op,
file system call, traced source line) issued by the code under test.
"""
import errno
import hashlib
import json
import os
import random
import sys
import threading
import traceback

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
BACKEND = 'tf'
MAX_STEPS = 400000


class Violation(Exception):
  """The code under test broke the property."""

  def __init__(self, kind, msg):
    super().__init__(f'{kind}: {msg}')
    self.kind = kind
    self.msg = msg


class HarnessError(Exception):
  """The simulator itself is wrong; never reported as a violation."""


class Skip(Exception):
  """The plan is outside the quantifier (e.g. after shrinking)."""


class SimAbort(BaseException):
  """Unwinds the other clients after the run was decided."""


class SimCrash(BaseException):
  """A simulated process crash."""


class Fault:
  """Failure of the pos-th operation (of that name, if one is given)."""
  __slots__ = ('pos', 'kind', 'fired', 'at', 'name')

  def __init__(self, pos, kind, name=None):
    self.pos, self.kind, self.fired, self.at = pos, kind, False, None
    self.name = name


class Client:

  def __init__(self, idx):
    self.idx = idx
    self.sem = threading.Semaphore(0)
    self.done = False
    self.active = False   # inside a call to the code under test
    self.nops = 0         # underlying operations of the current call
    self.faults = ()
    self.rng = None       # outcome source of random draws of the call
    self.error = None
    self.thread = None
    self.lines = False
    self.crash = None     # [name or None, k]: killed at the k-th such point
    self.dead = False
    self.seen = {}        # points of the current call by name


_tls = threading.local()
CUR = None   # the running Sim


def current():
  return getattr(_tls, 'client', None)


class Sim:

  def __init__(self, plan):
    self.plan = plan
    sched = plan.get('sched') or {}
    self.rng = random.Random(sched.get('seed', 0))
    self.p_switch = sched.get('p', 0.0)
    self.lines = bool(sched.get('lines', False))
    self.explicit = None
    if sched.get('switches') is not None:
      self.explicit = {int(k): int(v) for k, v in sched['switches']}
    self.taken = []       # context switches actually made
    self.step = 0
    self.log = hashlib.sha1()
    self.trace = []       # readable event log (bounded)
    self.fired = {}
    self.fault_log = []
    self.probes = {}
    self.clients = []
    self.abort = False
    self.main_done = threading.Event()
    self.opcounts = {}
    self.draws = 0
    self.ops_ok = 0
    self.checks = 0

  # -- logging ----------------------------------------------------------------
  def event(self, *parts):
    text = '|'.join(str(p) for p in parts)
    self.log.update(text.encode())
    self.log.update(b'\n')
    if len(self.trace) < 400:
      self.trace.append(f'{self.step} {text}')

  def probe(self, name, n=1):
    self.probes[name] = self.probes.get(name, 0) + n

  def digest(self):
    return self.log.hexdigest()

  # -- scheduling -------------------------------------------------------------
  def _pick(self, me):
    """The client that runs the next step."""
    others = [c for c in self.clients if not c.done and c is not me]
    if not others:
      return me
    if self.explicit is not None:
      tgt = self.explicit.get(self.step)
      if tgt is None:
        return me
      for c in others:
        if c.idx == tgt:
          self.taken.append([self.step, tgt])
          return c
      return me
    if self.rng.random() >= self.p_switch:
      return me
    c = others[self.rng.randrange(len(others))]
    self.taken.append([self.step, c.idx])
    return c

  def point(self, name, faultable=True):
    """A scheduling (and possible failure) point of the active client."""
    me = current()
    if me is None or not me.active:
      return
    self.step += 1
    if self.step > MAX_STEPS:
      raise Violation('no-progress', f'more than {MAX_STEPS} steps')
    if me.dead:
      raise SimCrash()
    count = me.seen.get(name, 0)
    me.seen[name] = count + 1
    if me.crash is not None:
      total = me.seen.get(None, 0)
      me.seen[None] = total + 1
      if (me.crash[0] == name and me.crash[1] == count) or \
          (me.crash[0] is None and me.crash[1] == total):
        me.dead = True
        self.fired['crash'] = self.fired.get('crash', 0) + 1
        self.fault_log.append([me.idx, total, 'crash', name])
        self.event('crash', me.idx, total, name)
        raise SimCrash()
    if faultable:
      pos = me.nops
      me.nops += 1
      self.opcounts[name] = self.opcounts.get(name, 0) + 1
      for f in me.faults:
        if not f.fired and f.pos == (pos if f.name is None else
                                     count if f.name == name else -1):
          f.fired = True
          f.at = name
          self.fired[f.kind] = self.fired.get(f.kind, 0) + 1
          self.fault_log.append([me.idx, pos, f.kind, name])
          self.event('fault', me.idx, pos, f.kind, name)
          if len(self.clients) > 1:
            self._yield(me)
          raise make_fault(f.kind, name)
    if len(self.clients) > 1:
      self._yield(me)

  def _yield(self, me):
    if self.abort:
      raise SimAbort()
    nxt = self._pick(me)
    if nxt is not me:
      self.event('switch', me.idx, nxt.idx)
      nxt.sem.release()
      me.sem.acquire()
      if self.abort:
        raise SimAbort()

  def run_clients(self, fns):
    """Runs one function per client under the scheduler."""
    if len(fns) == 1:
      c = Client(0)
      self.clients = [c]
      _tls.client = c
      try:
        fns[0](c)
      finally:
        c.done = True
        _tls.client = None
      return
    self.clients = [Client(i) for i in range(len(fns))]
    self.main_done.clear()

    def body(c, fn):
      _tls.client = c
      c.sem.acquire()
      try:
        if not self.abort:
          fn(c)
      except SimAbort:
        pass
      except BaseException as e:  # pylint: disable=broad-except
        c.error = e
        self.abort = True
      finally:
        c.done = True
        c.active = False
        sys.settrace(None)
        left = [o for o in self.clients if not o.done]
        if left:
          if self.abort:
            nxt = left[0]
          else:
            nxt = left[self.rng.randrange(len(left))] \
                if self.explicit is None else left[0]
          nxt.sem.release()
        else:
          self.main_done.set()

    for c, fn in zip(self.clients, fns):
      c.thread = threading.Thread(target=body, args=(c, fn), daemon=True)
      c.thread.start()
    first = 0 if self.explicit is not None \
        else self.rng.randrange(len(self.clients))
    if self.explicit is not None and -1 in self.explicit:
      first = self.explicit[-1]
    self.taken.append([-1, first])
    self.clients[first].sem.release()
    if not self.main_done.wait(600):
      raise HarnessError('client threads did not finish')
    for c in self.clients:
      c.thread.join(60)
    errs = [c.error for c in self.clients if c.error is not None]
    self.clients = []
    for e in errs:
      raise e

  # -- calls into the code under test -------------------------------------------
  def call(self, fn, faults=(), rng=None, lines=None):
    """Runs `fn` as one call of the current client.

    Returns ('ok', value) or ('err', exception).  Only exceptions of the code
    under test are returned, simulator control flow propagates.
    """
    me = current()
    own = False
    if me is None:
      me = Client(-1)
      _tls.client = me
      own = True
    me.nops = 0
    me.seen = {}
    me.faults = tuple(faults)
    me.rng = rng if rng is not None else random.Random(0)
    me.active = True
    trace = self.lines and len(self.clients) > 1 if lines is None else lines
    if trace:
      sys.settrace(self._tracer)
    try:
      value = fn()
      return 'ok', value
    except (SimAbort, SimCrash, Violation, HarnessError, Skip):
      raise
    except Exception as e:  # pylint: disable=broad-except
      return 'err', e
    finally:
      if trace:
        sys.settrace(None)
      me.active = False
      me.faults = ()
      if own:
        _tls.client = None

  def _tracer(self, frame, event, arg):
    name = frame.f_code.co_filename
    if not name.startswith(REPO + '/'):
      return None
    return self._line

  def _line(self, frame, event, arg):
    if event == 'line':
      self.point('line', faultable=False)
    return self._line


def make_fault(kind, name):
  if kind == 'memory':
    return MemoryError(f'simulated allocation failure in {name}')
  if kind in ('eio', 'enospc'):
    return OSError(getattr(errno, kind.upper()),
                   f'simulated {kind} failure in {name}')
  import tensorflow as tf
  cls = {'oom': tf.errors.ResourceExhaustedError,
         'internal': tf.errors.InternalError,
         'cancelled': tf.errors.CancelledError}[kind]
  return cls(None, None, f'simulated {kind} failure in {name}')


def is_injected(e):
  return 'simulated' in str(e)


# -- TensorFlow seam ---------------------------------------------------------
_installed = False
# draws a client makes from the simulator instead of from TensorFlow


def _attr(args, name, default):
  for i, a in enumerate(args):
    if isinstance(a, str) and a == name and i + 1 < len(args):
      return args[i + 1]
  return default


def _draw_multinomial(sim, rng, args, orig):
  logits = np.asarray(args[3])
  n = int(np.asarray(args[4]))
  out = np.zeros([logits.shape[0], n], np.int64)
  for i in range(logits.shape[0]):
    cand = np.flatnonzero(~np.isneginf(logits[i]))
    if len(cand) == 0:
      return None
    for k in range(n):
      mode = rng.random()
      if mode < 0.3:
        out[i, k] = cand[0]
      elif mode < 0.6:
        out[i, k] = cand[-1]
      else:
        out[i, k] = cand[rng.randrange(len(cand))]
  import tensorflow as tf
  dt = tf.int64
  dt = tf.as_dtype(_attr(args, 'output_dtype', dt))
  return tf.constant(out, dtype=dt)


def _draw_uniform(sim, rng, args, orig):
  import tensorflow as tf
  shape = [int(s) for s in np.asarray(args[3])]
  n = int(np.prod(shape)) if shape else 1
  dt = tf.float32
  dt = tf.as_dtype(_attr(args, 'dtype', dt))
  vals = []
  for _ in range(n):
    r = rng.random()
    if r < 0.1:
      vals.append(0.0)
    elif r < 0.2:
      vals.append(0.99999994)
    elif r < 0.3:
      vals.append(0.25 * rng.randrange(4))
    else:
      vals.append(min(rng.random(), 0.99999994))
  return tf.constant(np.array(vals).reshape(shape), dtype=dt)


_DRAWS = {'Multinomial': _draw_multinomial, 'RandomUniform': _draw_uniform}


def install_tf_seam():
  """Routes every eager TensorFlow operation through the simulator."""
  global _installed
  if _installed:
    return
  _installed = True
  from tensorflow.python import pywrap_tfe
  fast0 = pywrap_tfe.TFE_Py_FastPathExecute
  slow0 = pywrap_tfe.TFE_Py_Execute

  def seam(name, args, orig):
    sim = CUR
    me = current()
    if sim is None or me is None or not me.active:
      return orig(*args)
    if isinstance(name, bytes):
      name = name.decode()
    sim.point(name)
    if name in _DRAWS:
      me.active = False
      try:
        val = _DRAWS[name](sim, me.rng, args, orig)
      finally:
        me.active = True
      if val is not None:
        sim.draws += 1
        return val
    return orig(*args)

  def fast(*args):
    return seam(args[1], args, fast0)

  def slow(*args):
    return seam(args[2], args, slow0)

  pywrap_tfe.TFE_Py_FastPathExecute = fast
  pywrap_tfe.TFE_Py_Execute = slow


def run_plan(scenario, plan):
  """Executes one plan; returns the report of the run."""
  global CUR
  sim = Sim(plan)
  rep = dict(status='ok')
  np.random.seed(plan.get('seed', 0) % (2**32))
  random.seed(plan.get('seed', 0))
  if 'tensorflow' in sys.modules:
    import tensorflow as tf
    tf.random.set_seed(plan.get('seed', 0) % (2**31))
  CUR = sim
  try:
    scenario.run(plan, sim)
  except Violation as v:
    rep.update(status='violation', kind=v.kind, msg=v.msg)
  except Skip as s:
    rep.update(status='skip', msg=str(s))
  except SimCrash as e:
    rep.update(status='harness', msg='stray crash\n' + traceback.format_exc())
  except Exception as e:  # pylint: disable=broad-except
    rep.update(status='harness', msg=traceback.format_exc())
  finally:
    CUR = None
    _tls.client = None
  rep.update(steps=sim.step, fired=sim.fired, probes=sim.probes,
             digest=sim.digest(), switches=len(sim.taken), taken=sim.taken,
             ops_ok=sim.ops_ok, checks=sim.checks, draws=sim.draws,
             fault_log=sim.fault_log)
  if rep['status'] in ('violation', 'harness'):
    rep['trace'] = sim.trace
  return rep


def mix(*parts):
  """A 63 bit seed derived from its arguments."""
  h = hashlib.sha256(json.dumps(parts).encode()).digest()
  return int.from_bytes(h[:8], 'big') >> 1
