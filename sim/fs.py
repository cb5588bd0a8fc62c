"""Simulated file system: scratch files behind the loaders' gfile seam.

Reads and existence tests become steps of the simulation that the plan can let
fail; the content itself lives in a scratch directory made per run.
"""
import os
import shutil
import tempfile

from sim import core

_real = {}


def _point(name):
  sim = core.CUR
  if sim is not None:
    sim.point(name)


def _active():
  me = core.current()
  return core.CUR is not None and me is not None and me.active


def install():
  """Replaces tf.io.gfile.{GFile,exists,...} and open() once per process."""
  if _real:
    return
  import builtins
  import tensorflow as tf
  gf = tf.io.gfile
  base = gf.GFile
  _real['open'] = builtins.open
  _real['gfile'] = base

  class SimGFile(base):
    """The real file object, every operation of which may fail."""

    def __init__(self, name, mode='r'):
      _point('fs.open')
      super().__init__(name, mode)

    def read(self, n=-1):
      _point('fs.read')
      return super().read(n)

    def readline(self):
      _point('fs.read')
      return super().readline()

    def readlines(self):
      _point('fs.read')
      return super().readlines()

    def __next__(self):
      _point('fs.read')
      line = super().readline()
      if not line:
        raise StopIteration
      return line

    def __iter__(self):
      return self

    def seek(self, *args, **kw):
      _point('fs.seek')
      return super().seek(*args, **kw)

    def close(self):
      super().close()

  gf.GFile = SimGFile
  ex = gf.exists

  def exists(path):
    _point('fs.exists')
    return ex(path)
  gf.exists = exists

  class SimFile:
    """open() of a scratch file, for code that does not use gfile."""

    def __init__(self, f):
      self._f = f

    def __getattr__(self, name):
      if name in ('read', 'readline', 'readlines'):
        _point('fs.read')
      return getattr(self._f, name)

    def __iter__(self):
      return self

    def __next__(self):
      _point('fs.read')
      return next(self._f)

    def __enter__(self):
      self._f.__enter__()
      return self

    def __exit__(self, *a):
      return self._f.__exit__(*a)

  def sim_open(file, mode='r', *args, **kw):
    if not _active() or not isinstance(file, str) or \
        not file.startswith(scratch_root()) or 'r' not in mode:
      return _real['open'](file, mode, *args, **kw)
    _point('fs.open')
    return SimFile(_real['open'](file, mode, *args, **kw))
  builtins.open = sim_open


def scratch_root():
  base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
  return os.path.join(base, 'verif_sim_%d' % os.getpid())


class Scratch:
  """A scratch directory of one run."""
  count = 0

  def __enter__(self):
    # the same path in every process, so that messages are repeatable
    self.dir = os.path.join(scratch_root(), 'run')
    shutil.rmtree(self.dir, ignore_errors=True)
    os.makedirs(self.dir)
    return self

  def path(self, name):
    return os.path.join(self.dir, name)

  def write(self, name, text):
    p = self.path(name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with _real.get('open', open)(p, 'wb') as f:
      f.write(text if isinstance(text, bytes) else text.encode())
    return p

  def __exit__(self, *a):
    shutil.rmtree(scratch_root(), ignore_errors=True)
