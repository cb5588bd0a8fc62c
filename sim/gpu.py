"""The CUDA ops of the repository on the simulated GPU, as a Python module.

`install()` puts a module `tfg_custom_ops` in place of the one that loads the
compiled op library; its functions take and return TensorFlow tensors and run
the real op code (op kernels and CUDA kernels) on the simulated device.  The
order of threads and blocks, the contents of uninitialised memory, the lag of
the stream, the clock and the size of the device are drawn from the simulator.
"""

import ctypes
import os
import random
import re
import sys
import types

import numpy as np

MAX_ACCESS = 60_000_000


class _In(ctypes.Structure):
  _fields_ = [('ndim', ctypes.c_int), ('dims', ctypes.c_longlong * 8),
              ('data', ctypes.c_void_p)]


DTYPES = {'float32': np.float32, 'float': np.float32, 'float64': np.float64,
          'double': np.float64, 'int32': np.int32, 'int64': np.int64,
          'bool': np.bool_}
CODES = {1: np.float32, 2: np.float64, 3: np.int32, 9: np.int64, 10: np.bool_}


class Device:
  """Everything the simulated device decides for one op call."""
  FIELDS = dict(seed=0, garbage=0, policy=0, preempt=0.0, order=0, window=4,
                mps=8, occupancy=8, lazy=0.5, fail_alloc=-1, fail_call=-1, now=0,
                max_access=MAX_ACCESS)

  def __init__(self, **kw):
    for k, v in self.FIELDS.items():
      setattr(self, k, kw.pop(k, v))
    if kw:
      raise TypeError(f'unknown fields {sorted(kw)}')

  @classmethod
  def draw(cls, rng, light=False):
    """light: cheap schedules for calls inside of larger scenarios."""
    pre = [0.0, 0.0, 0.01, 0.1, 0.5] if light else \
        [0.0, 0.0, 0.003, 0.02, 0.1, 0.5, 1.0]
    return cls(seed=rng.getrandbits(60), garbage=rng.choice([0, 0, 1, 2, 3, 4]),
               policy=rng.randrange(5) if light else rng.randrange(6),
               preempt=rng.choice(pre), order=rng.randrange(3),
               window=rng.choice([1, 2, 3, 8]),
               mps=rng.choice([1, 1, 2, 4, 8, 80]),
               occupancy=rng.choice([1, 2, 4, 16]),
               lazy=rng.choice([0.0, 0.5, 0.9, 1.0]),
               now=rng.choice([0, 1, rng.getrandbits(31), 1 << 31,
                               1600000000 + rng.randrange(10**8)]))

  def doc(self):
    return {k: getattr(self, k) for k in self.FIELDS}


class Result:

  def __init__(self, status, outputs=None, kind='', msg='', code=0, stats=None):
    self.status, self.outputs, self.kind = status, outputs, kind
    self.msg, self.code, self.stats = msg, code, stats or {}


_lib = None
OPS = {}


class OpDef:

  def __init__(self, line):
    name, ins, outs, attrs, host = line.split(';')
    self.name = name

    def parts(s):
      out = []
      for x in s.split(','):
        if x:
          k, t = x.split(':', 1)
          out.append((k.strip(), t.strip()))
      return out
    self.inputs, self.outputs, self.attrs = parts(ins), parts(outs), parts(attrs)
    self.host = [h for h in host.split(',') if h]
    self.has_kernel = host != '!'


def load():
  """Loads the library built by gpubuild."""
  global _lib
  if _lib is not None:
    return _lib
  path = os.environ['VERIF_GPU_LIB']
  lib = ctypes.CDLL(path)
  real = os.path.realpath(path)
  spans = []
  with open('/proc/self/maps') as f:
    for line in f:
      if line.rstrip().endswith(real):
        a, b = line.split()[0].split('-')
        spans.append((int(a, 16), int(b, 16)))
  lib.gpusim_init.argtypes = [ctypes.c_ulonglong] * 2
  # .bss follows the mapped file
  lib.gpusim_init(min(s[0] for s in spans), max(s[1] for s in spans) + (1 << 16))
  for n in ('ops', 'kind', 'msg', 'stat_names', 'text'):
    getattr(lib, 'gpusim_' + n).restype = ctypes.c_char_p
  lib.gpusim_run.argtypes = [
      ctypes.c_char_p, ctypes.c_int, ctypes.POINTER(_In), ctypes.c_int,
      ctypes.POINTER(ctypes.c_char_p), ctypes.POINTER(ctypes.c_longlong),
      ctypes.c_ulonglong, ctypes.c_int, ctypes.c_int, ctypes.c_double,
      ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_double,
      ctypes.c_longlong, ctypes.c_longlong, ctypes.c_longlong,
      ctypes.c_longlong]
  lib.gpusim_output.argtypes = [
      ctypes.c_int, ctypes.POINTER(ctypes.c_int),
      ctypes.POINTER(ctypes.c_longlong), ctypes.POINTER(ctypes.c_void_p)]
  lib.gpusim_stats.argtypes = [ctypes.POINTER(ctypes.c_longlong)]
  lib.gpusim_shape.argtypes = [
      ctypes.c_char_p, ctypes.c_int, ctypes.POINTER(_In), ctypes.c_int,
      ctypes.POINTER(ctypes.c_char_p), ctypes.POINTER(ctypes.c_longlong)]
  _lib = lib
  for line in lib.gpusim_ops().decode().splitlines():
    d = OpDef(line)
    OPS[d.name] = d
  return lib


def _inputs(arrays):
  ins = (_In * max(1, len(arrays)))()
  keep = []
  for i, a in enumerate(arrays):
    a = np.array(a, order='C')        # also keeps 0-d arrays 0-d
    keep.append(a)
    ins[i].ndim = a.ndim
    for j, s in enumerate(a.shape):
      ins[i].dims[j] = s
    ins[i].data = a.ctypes.data
  return ins, keep


def _attrs(attrs):
  names = (ctypes.c_char_p * max(1, len(attrs)))(
      *[k.encode() for k in attrs])
  vals = (ctypes.c_longlong * max(1, len(attrs)))(*attrs.values())
  return names, vals


def run_op(name, arrays, attrs, dev):
  """Executes an op; arrays have the declared types."""
  lib = load()
  ins, keep = _inputs(arrays)
  names, vals = _attrs(attrs)
  code = lib.gpusim_run(name.encode(), len(arrays), ins, len(attrs), names,
                        vals, dev.seed, dev.garbage, dev.policy, dev.preempt,
                        dev.order, dev.window, dev.mps, dev.occupancy, dev.lazy,
                        dev.fail_alloc, dev.fail_call, dev.now, dev.max_access)
  n = lib.gpusim_nstats()
  st = (ctypes.c_longlong * n)()
  lib.gpusim_stats(st)
  stats = dict(zip(lib.gpusim_stat_names().decode().split(), st))
  if code < 0:
    return Result('missing', msg=f'{name} ({code})')
  if code:
    return Result({1: 'error', 2: 'violation', 3: 'exit'}[code],
                  kind=lib.gpusim_kind().decode(),
                  msg=lib.gpusim_msg().decode(errors='replace'),
                  code=lib.gpusim_code(), stats=stats)
  outs = []
  for i in range(lib.gpusim_num_outputs()):
    dt, dims, data = ctypes.c_int(), (ctypes.c_longlong * 8)(), ctypes.c_void_p()
    nd = lib.gpusim_output(i, ctypes.byref(dt), dims, ctypes.byref(data))
    shape = tuple(dims[:nd])
    dtype = np.dtype(CODES[dt.value])
    count = int(np.prod(shape)) if shape else 1
    if count:
      raw = ctypes.string_at(data, count * dtype.itemsize)
      outs.append(np.frombuffer(raw, dtype).reshape(shape).copy())
    else:
      outs.append(np.zeros(shape, dtype))
  return Result('ok', outputs=outs, stats=stats)


def run_shape(name, shapes, attrs):
  """The shape function; shapes: tuples with None for unknown, or None."""
  lib = load()
  ins = (_In * max(1, len(shapes)))()
  for i, s in enumerate(shapes):
    ins[i].ndim = -1 if s is None else len(s)
    for j, d in enumerate(s or ()):
      ins[i].dims[j] = -1 if d is None else d
  names, vals = _attrs(attrs)
  code = lib.gpusim_shape(name.encode(), len(shapes), ins, len(attrs), names,
                          vals)
  if code:
    return Result({1: 'error', 2: 'violation', 3: 'exit'}.get(code, 'missing'),
                  kind=lib.gpusim_kind().decode(),
                  msg=lib.gpusim_msg().decode(errors='replace'))
  out = []
  for p in lib.gpusim_text().decode().split(';')[:-1]:
    if p == '?':
      out.append(None)
    else:
      out.append(tuple(None if int(d) < 0 else int(d)
                       for d in p.split(',') if d != ''))
  return Result('ok', outputs=out)


# -- TensorFlow functions ----------------------------------------------------------

_GRADS = {}
_connected = False


def _snake(name):
  return re.sub(r'(?<=[a-z0-9])([A-Z])', r'_\1', name).lower()


def _error(code, msg):
  import tensorflow as tf
  cls = {3: tf.errors.InvalidArgumentError, 8: tf.errors.ResourceExhaustedError,
         13: tf.errors.InternalError, 5: tf.errors.NotFoundError}.get(
             code, tf.errors.UnknownError)
  return cls(None, None, msg)


def _execute(d, tensors, attrs):
  from sim import core
  sim, me = core.CUR, core.current()
  dev = Device(preempt=0.0)
  if sim is not None and me is not None and me.active:
    sim.point('gpu:' + d.name)
    k = me.seen['gpu'] = me.seen.get('gpu', 0) + 1
    dev = Device.draw(random.Random(core.mix(
        'gpu', sim.plan.get('seed', 0), me.rng.getrandbits(48), k)), light=True)
    sim.probe('gpu op calls')
  r = run_op(d.name, [np.asarray(t) for t in tensors], attrs, dev)
  if sim is not None:
    for k in ('threads', 'switches', 'barriers', 'atomics', 'lazy_ops'):
      if r.stats.get(k):
        sim.probe('gpu ' + k, r.stats[k])
  if r.status == 'violation':
    if r.kind == 'harness':
      raise core.HarnessError(r.msg)
    raise core.Violation('gpu-' + r.kind, f'{d.name}: {r.msg} '
                         f'(device {dev.doc()})')
  if r.status == 'exit':
    raise core.Violation('gpu-process-exit',
                         f'{d.name} ends the process with code {r.code}')
  if r.status == 'missing':
    raise core.HarnessError('op not found: ' + r.msg)
  if r.status == 'error':
    raise _error(r.code, r.msg)
  import tensorflow as tf
  return [tf.constant(o) for o in r.outputs]


class _Op:
  """What a registered gradient function sees of an op."""

  def __init__(self, d, tensors, attrs, outputs):
    self.type, self.inputs, self.outputs = d.name, tensors, outputs
    self._attrs = attrs

  def get_attr(self, name):
    return self._attrs[name]


def _function(d):
  import tensorflow as tf
  names = [k for k, _ in d.inputs] + [k for k, _ in d.attrs]

  def fn(*args, **kw):
    kw.pop('name', None)
    vals = dict(zip(names, args))
    for k, v in kw.items():
      if k not in names or k in vals:
        raise TypeError(f'{d.name}: argument {k}')
      vals[k] = v
    missing = [k for k in names if k not in vals]
    if missing:
      raise TypeError(f'{d.name}: missing arguments {missing}')
    tensors = []
    for k, t in d.inputs:
      want = tf.as_dtype(DTYPES[t])
      v = vals[k]
      if tf.is_tensor(v):
        v = tf.convert_to_tensor(v)
        if v.dtype != want:
          raise tf.errors.InvalidArgumentError(
              None, None, f'cannot compute {d.name} as input {k} was expected '
              f'to be a {want.name} tensor but is a {v.dtype.name} tensor')
      else:
        v = tf.convert_to_tensor(v, dtype=want)
      if not hasattr(v, 'numpy'):
        from sim import core
        raise core.HarnessError('symbolic tensor given to the simulated GPU')
      tensors.append(v)
    attrs = {}
    for k, t in d.attrs:
      attrs[k] = int(vals[k])
      m = re.search(r'>=\s*(-?\d+)', t)
      if m and attrs[k] < int(m.group(1)):
        raise tf.errors.InvalidArgumentError(None, None, f'{k} too small')
    grad = _GRADS.get(d.name)
    if grad is None:
      # no gradient: the outputs are constants
      out = _execute(d, tensors, attrs)
    else:
      @tf.custom_gradient
      def call(*ts):
        outs = _execute(d, ts, attrs)

        def back(*gs):
          g = grad(_Op(d, ts, attrs, outs), *gs)
          g = list(g) if isinstance(g, (list, tuple)) else [g]
          return g
        return (outs[0] if len(outs) == 1 else tuple(outs)), back
      res = call(*tensors)
      return res
    return out[0] if len(out) == 1 else tuple(out)
  return fn


class _Module(types.ModuleType):
  """Functions are made when first used (TensorFlow may not be loaded yet)."""

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    for d in OPS.values():
      if _snake(d.name) == name:
        fn = _function(d)
        setattr(self, name, fn)
        return fn
    raise AttributeError(name)


def install():
  load()
  m = _Module('tfg_custom_ops')
  m.__path__ = []
  sys.modules['tfg_custom_ops'] = m


def connect():
  """Finds the gradients the wrapper registers."""
  global _connected
  if _connected:
    return
  _connected = True
  import tensorflow as tf
  real = tf.RegisterGradient
  registry = {}

  class Register(real):

    def __init__(self, op_type):
      super().__init__(op_type)
      self.gpu_name = op_type

    def __call__(self, f):
      registry[self.gpu_name] = f
      return super().__call__(f)
  tf.RegisterGradient = Register
  try:
    import pylib.pc  # pylint: disable=unused-import
    from pylib.pc import custom_ops
  finally:
    tf.RegisterGradient = real
  if not custom_ops.CUSTOM:
    raise RuntimeError('the module pc did not pick up tfg_custom_ops')
  for name, f in registry.items():
    if name in OPS:
      _GRADS[name] = f
