"""GPU ops on the simulated device, called directly with arrays."""
import itertools
import random

import numpy as np

from sim import gpu, model as M
from sim.core import HarnessError, Skip, Violation, mix
from sim.scen import SCENARIOS
from sim.world import digest_tree

F = np.float32
BASIS = [8, 16, 32, 64]
CHANNELS = [1, 2, 3, 5, 7, 8, 16, 24, 40]

# symbolic shapes of the inputs
SHAPES = dict(
    ComputeKeys=['ND', 'N', 'BD', 'D', 'D'],
    BuildGridDs=['N', 'D', 'D'],
    FindNeighbors=['MD', 'M', 'ND', 'N', 'BXY2', 'D', 'BD', 'D', 'D'],
    Sampling=['ND', 'N', 'N', 'D', 'E2', 'N'],
    ComputePdf=['ND', 'E2', 'N', 'D', 'D'],
    ComputePdfWithPtGrads=['ND', 'E2', 'N', 'D', 'D'],
    ComputePdfPtGrads=['ND', 'E2', 'N', 'D', 'D', 'N'],
    BasisProj=['EK', 'NC', 'E2', 'M'],
    BasisProjGrads=['EK', 'NC', 'E2', 'M', 'MCK'])
WEIGHT = dict(ComputeKeys=2, BuildGridDs=2, FindNeighbors=6, Sampling=5,
              ComputePdf=1, ComputePdfWithPtGrads=1, ComputePdfPtGrads=2,
              BasisProj=2, BasisProjGrads=3)
BAD_ATTR = dict(BuildGridDs=('batch_size', [0, -1, -7]),
                Sampling=('mode', [-1, 2, 9]), ComputePdf=('mode', [-1, 2, 5]),
                ComputePdfWithPtGrads=('mode', [-1, 2]),
                ComputePdfPtGrads=('mode', [-1, 2, 3]))


def fits(op, shapes):
  """True if the shapes can be those of a valid call."""
  env = {}
  for sym, shape in zip(SHAPES[op], shapes):
    if len(sym) != len(shape):
      return False
    for s, n in zip(sym, shape):
      if s.isdigit():
        if n != int(s):
          return False
      elif env.setdefault(s, n) != n:
        return False
  if not 2 <= env.get('D', 2) <= 6:
    return False
  if 'K' in env and env['K'] not in BASIS:
    return False
  if 'C' in env and not (0 < env['C'] < 8 or (env['C'] and env['C'] % 8 == 0)):
    return False
  return True


# -- inputs ------------------------------------------------------------------------

class Case:
  """The data a plan describes and the arrays of the pipeline made from it."""

  def __init__(self, plan):
    D, B = plan['D'], plan['B']
    pts = plan['lists']['pts']
    self.D, self.B, self.plan = D, B, plan
    P = np.array([p[1:] for p in pts], F).reshape(-1, D)
    ids = np.array([p[0] for p in pts], np.int32)
    self.radii = np.broadcast_to(np.array(plan['radii'], F), (D,)).astype(F)
    self.cell = (self.radii * np.array(plan['cell'], F)).astype(F)
    self.inv_cell = (F(1) / self.cell).astype(F)
    self.inv_radii = (F(1) / self.radii).astype(F)
    lo, hi = np.zeros((B, D), F), np.zeros((B, D), F)
    for b in range(B):
      e = P[ids == b]
      if len(e):
        lo[b], hi[b] = e.min(0), e.max(0)
    self.lo = lo
    num = np.floor((hi - lo) * self.inv_cell).max(0).astype(np.int64) + 1
    num = np.maximum(1, num + np.array(plan['more_cells'])[:D])
    self.num = np.minimum(num, 60).astype(np.int32)
    self.smin = (lo * self.inv_cell).astype(F)
    self.raw_pts, self.raw_ids = P, ids
    keys = self.keys_of(P, ids)
    order = np.argsort(-keys, kind='stable')
    self.pts, self.ids, self.keys = P[order], ids[order], keys[order]
    S = plan['lists']['samples']
    self.samples = np.array([p[1:] for p in S], F).reshape(-1, D)
    self.sids = np.array([p[0] for p in S], np.int32)

  def cells_of(self, P, ids):
    rel = (P * self.inv_cell).astype(F) - self.smin[ids]
    return np.clip(np.floor(rel).astype(np.int64), 0, self.num - 1)

  def keys_of(self, P, ids):
    c = self.cells_of(P, ids)
    key = ids.astype(np.int64)
    for d in range(self.D):
      key = key * int(self.num[d]) + c[:, d]
    return key

  def grid(self):
    ds = np.zeros((self.B, self.num[0], self.num[1], 2), np.int32)
    rest = 1
    for d in range(2, self.D):
      rest *= int(self.num[d])
    cell = self.keys // rest
    flat = ds.reshape(-1, 2)
    for i, c in enumerate(cell):
      if i == 0 or cell[i - 1] != c:
        flat[c, 0] = i
      flat[c, 1] = i + 1
    return ds

  def pairs(self, own=False):
    """Neighbors by brute force: must, may."""
    S, si = (self.pts, self.ids) if own else (self.samples, self.sids)
    dist = M.norm_dist(S, si, self.pts, self.ids, self.radii)
    return M.pairs(dist)

  def neighbor_list(self, own=False, keep=None):
    """A valid neighbor list and the ends of its parts, in a random order."""
    must, _ = self.pairs(own)
    rng = np.random.RandomState(self.plan['seed'] % 2**31)
    rows, ends = [], []
    for i in range(len(must)):
      j = np.flatnonzero(must[i])
      j = j[rng.permutation(len(j))]
      if keep is not None:
        j = j[:keep]
      rows += [(int(x), i) for x in j]
      ends.append(len(rows))
    return (np.array(rows, np.int32).reshape(-1, 2),
            np.array(ends, np.int32).reshape(-1))


def arrays_of(op, c):
  """Inputs and attributes of a valid call."""
  plan = c.plan
  rng = np.random.RandomState((plan['seed'] + 1) % 2**31)
  if op == 'ComputeKeys':
    return [c.raw_pts, c.raw_ids, c.smin, c.num, c.inv_cell], {}
  if op == 'BuildGridDs':
    return [c.keys, c.num, c.num], dict(batch_size=c.B)
  if op == 'FindNeighbors':
    return [c.samples, c.sids, c.pts, c.keys, c.grid(), c.num, c.smin,
            c.inv_cell, c.inv_radii], dict(max_neighs=plan['limit'])
  if op == 'Sampling':
    nb, ends = c.neighbor_list(own=True)
    return [c.pts, c.ids, c.keys, c.num, nb, ends], dict(mode=plan['mode'])
  if op.startswith('ComputePdf'):
    nb, ends = c.neighbor_list(own=True)
    bw = np.broadcast_to(np.array(plan['bw'], F), (c.D,)).astype(F)
    a = [c.pts, nb, ends, (F(1) / bw).astype(F), c.inv_radii]
    if op == 'ComputePdfPtGrads':
      a.append(rng.randn(len(c.pts)).astype(F))
    return a, dict(mode=plan['mode'])
  # the device simulates about a million accesses per second
  most = min(30000, 3000000 // (plan['K'] * plan['C']))
  most = max(1, most // max(1, len(c.samples)))
  nb, ends = c.neighbor_list(keep=min(plan['limit'] or most, most))
  a = [rng.randn(len(nb), plan['K']).astype(F),
       rng.randn(len(c.pts), plan['C']).astype(F), nb, ends]
  if op == 'BasisProjGrads':
    a.append(rng.randn(len(c.samples), plan['C'], plan['K']).astype(F))
  return a, {}


# -- oracles -----------------------------------------------------------------------

def close(what, got, want, scale=None, tol=2e-5):
  got = np.asarray(got, np.float64)
  if got.shape != want.shape:
    raise Violation('wrong-result', f'{what}: shape {got.shape}, not {want.shape}')
  s = np.abs(want) if scale is None else scale
  bad = ~(np.abs(got - want) <= tol * (1 + s))
  if bad.any():
    i = tuple(int(x[0]) for x in np.nonzero(bad))
    raise Violation('wrong-result',
                    f'{what}: {got[i]!r} at {i}, not {want[i]!r}')


def check_keys(c, a, out):
  k = out[0]
  if k.shape != (len(c.raw_pts),):
    raise Violation('wrong-result', f'keys of shape {k.shape}')
  rel = (c.raw_pts.astype(np.float64) / c.cell) - c.lo[c.raw_ids] / c.cell
  rest = k.copy()
  for d in reversed(range(c.D)):
    n = int(c.num[d])
    got = rest % n
    rest = rest // n
    eps = 1e-4 * (1 + np.abs(c.raw_pts[:, d] / c.cell[d]))
    lo = np.clip(np.floor(rel[:, d] - eps), 0, n - 1)
    hi = np.clip(np.floor(rel[:, d] + eps), 0, n - 1)
    bad = (got < lo) | (got > hi)
    if bad.any():
      i = int(np.flatnonzero(bad)[0])
      raise Violation('wrong-result', f'key of point {i}: cell {got[i]} in '
                      f'dimension {d}, not {lo[i]:.0f}')
  if (rest != c.raw_ids).any():
    raise Violation('wrong-result', 'key of another batch element')


def check_grid(c, a, out):
  want = c.grid()
  if out[0].shape != want.shape or (out[0] != want).any():
    raise Violation('wrong-result', f'grid ranges {out[0].reshape(-1, 2)[:20]} '
                    f'not {want.reshape(-1, 2)[:20]}')


def check_neighbors(c, a, out):
  ends, nb = out
  m = len(c.samples)
  if ends.shape != (m,) or nb.ndim != 2 or nb.shape[1] != 2:
    raise Violation('wrong-result', f'shapes {ends.shape} {nb.shape}')
  start = np.concatenate([[0], ends[:-1]]).astype(int) if m else ends
  if m and ((ends < start).any() or ends[-1] != len(nb)):
    raise Violation('wrong-result', f'ranges {ends.tolist()[:30]} of {len(nb)}')
  if not m and len(nb):
    raise Violation('wrong-result', 'neighbors without samples')
  must, may = c.pairs()
  limit = c.plan['limit']
  for i in range(m):
    part = nb[start[i]:ends[i]]
    j = part[:, 0]
    if (part[:, 1] != i).any():
      raise Violation('wrong-result', f'center of a neighbor of {i}')
    if len(set(j.tolist())) != len(j):
      raise Violation('wrong-result', f'neighbor of {i} twice: {j.tolist()}')
    if (j < 0).any() or (j >= len(c.pts)).any() or not may[i][j].all():
      raise Violation('wrong-result', f'neighbors {j.tolist()} of {i}')
    lo, hi = int(must[i].sum()), int(may[i].sum())
    if limit > 0:
      lo, hi = min(lo, limit), min(hi, limit)
    if not lo <= len(j) <= hi:
      raise Violation('wrong-result',
                      f'{len(j)} neighbors of {i}, {lo} to {hi} expected')
    if limit <= 0 and not np.isin(np.flatnonzero(must[i]), j).all():
      raise Violation('wrong-result', f'neighbors of {i} missing')


def check_sampling(c, a, out):
  pts, bid, idx = out
  if pts.ndim != 2 or pts.shape[1] != c.D or bid.shape != pts.shape[:1]:
    raise Violation('wrong-result', f'shapes {pts.shape} {bid.shape}')
  if c.plan['mode'] == 0:
    if idx.shape != bid.shape or (idx < 0).any() or (idx >= len(c.pts)).any():
      raise Violation('wrong-result', f'sampled indices {idx.tolist()[:30]}')
    if len(set(idx.tolist())) != len(idx):
      raise Violation('wrong-result', 'point sampled twice')
    if (pts != c.pts[idx]).any() or (bid != c.ids[idx]).any():
      raise Violation('wrong-result', 'sampled points differ from their indices')
    nb, ends = a[4], a[5]
    used = np.zeros(len(c.pts), bool)
    used[idx] = True
    start = 0
    for i, e in enumerate(ends):
      j = nb[start:e, 0]
      start = e
      if used[i] and used[j[j != i]].any():
        raise Violation('wrong-result', f'neighbors {i} and '
                        f'{j[(j != i) & used[j]].tolist()} both sampled')
      if not used[j].any():
        raise Violation('wrong-result', f'no point near {i} sampled')
    return
  want, ids = [], []
  for k in np.unique(c.keys):
    s = c.keys == k
    want.append(c.pts[s].astype(np.float64).mean(0))
    ids.append(int(c.ids[s][0]))
  if len(want) != len(pts):
    raise Violation('wrong-result', f'{len(pts)} averages, not {len(want)}')
  left = np.ones(len(pts), bool)
  for w, b in zip(want, ids):
    ok = left & (bid == b) & (np.abs(pts - w) <= 2e-5 * (1 + np.abs(w))).all(1)
    if not ok.any():
      raise Violation('wrong-result', f'average {w} of element {b} missing')
    left[np.flatnonzero(ok)[0]] = False


def _kernel(c, a):
  nb = a[1]
  inv = a[3].astype(np.float64)
  if c.plan['mode'] == 1:
    inv = np.full(c.D, np.sqrt(len(c.pts)))
  diff = (c.pts[nb[:, 0]].astype(np.float64) -
          c.pts[nb[:, 1]].astype(np.float64)) * inv * a[4]
  k = (np.exp(-(diff**2) / 2) * 0.39894228 * inv).prod(1)
  return nb, inv, diff, k


def check_pdf(c, a, out):
  nb, _, _, k = _kernel(c, a)
  want = np.zeros(len(c.pts))
  np.add.at(want, nb[:, 1], k)
  close('density', out[0], want, tol=1e-4)


def check_pdf_grads(c, a, out):
  nb, inv, diff, k = _kernel(c, a)
  g = -(a[5].astype(np.float64)[nb[:, 1]] * k)[:, None] * diff * inv * a[4]
  want, size = np.zeros(c.pts.shape), np.zeros(c.pts.shape)
  np.add.at(want, nb[:, 0], g)
  np.add.at(want, nb[:, 1], -g)
  np.add.at(size, nb[:, 0], np.abs(g))
  np.add.at(size, nb[:, 1], np.abs(g))
  close('gradient of the density', out[0], want, size, 2e-4)


def check_basis(c, a, out):
  basis, feat, nb, _ = [x.astype(np.float64) if x.dtype == F else x
                        for x in a]
  m = len(c.samples)
  want = np.zeros((m, feat.shape[1], basis.shape[1]))
  size = np.zeros_like(want)
  t = feat[nb[:, 0]][:, :, None] * basis[:, None, :]
  np.add.at(want, nb[:, 1], t)
  np.add.at(size, nb[:, 1], np.abs(t))
  close('projection', out[0], want, size)


def check_basis_grads(c, a, out):
  basis, feat, nb, _, up = [x.astype(np.float64) if x.dtype == F else x
                            for x in a]
  u = up[nb[:, 1]]
  f = feat[nb[:, 0]]
  close('gradient of the basis', out[0], np.einsum('eck,ec->ek', u, f),
        np.einsum('eck,ec->ek', np.abs(u), np.abs(f)))
  want, size = np.zeros(feat.shape), np.zeros(feat.shape)
  np.add.at(want, nb[:, 0], np.einsum('eck,ek->ec', u, basis))
  np.add.at(size, nb[:, 0], np.einsum('eck,ek->ec', np.abs(u), np.abs(basis)))
  close('gradient of the features', out[1], want, size)


CHECK = dict(ComputeKeys=check_keys, BuildGridDs=check_grid,
             FindNeighbors=check_neighbors, Sampling=check_sampling,
             ComputePdf=check_pdf, ComputePdfWithPtGrads=check_pdf,
             ComputePdfPtGrads=check_pdf_grads, BasisProj=check_basis,
             BasisProjGrads=check_basis_grads)


# -- generation ----------------------------------------------------------------------

def rnd_points(rng, n, B, D, spread, style):
  out = []
  for _ in range(n):
    if out and style == 'dup' and rng.random() < 0.4:
      out.append(list(rng.choice(out)))
      continue
    b = rng.randrange(B)
    if style == 'grid':
      x = [rng.randrange(0, 5) * spread / 4 for _ in range(D)]
    elif style == 'line':
      t = rng.random() * spread
      x = [t] + [rng.random() * 0.01 for _ in range(D - 1)]
    elif style == 'cluster':
      t = rng.choice([0.0, spread])
      x = [t + rng.gauss(0, 0.02) for _ in range(D)]
    else:
      x = [rng.random() * spread for _ in range(D)]
    out.append([b] + [float(F(v)) for v in x])
  return out


class Gpu:

  def gen(self, rng, seed, tier):
    op = rng.choices(list(WEIGHT), list(WEIGHT.values()))[0]
    kind = rng.choices(['valid', 'invalid', 'alloc', 'device', 'shape'],
                       [56, 14, 12, 10, 8])[0]
    D = rng.choice([2, 2, 3, 3, 3, 4, 5, 6])
    B = rng.choice([1, 1, 2, 3, 5])
    spread = rng.choice([0.3, 1.0, 2.0, 5.0])
    style = rng.choice(['uniform', 'uniform', 'grid', 'line', 'cluster', 'dup'])
    size = rng.random()
    deep = tier == 'thorough'
    if size < 0.06:
      n = 0
    elif size < 0.25:
      n = rng.randrange(1, 7)
    elif size < 0.8:
      n = rng.randrange(6, 60)
    elif size < (0.97 if not deep else 0.93):
      n = rng.randrange(60, 350)
    else:
      n = rng.randrange(350, 3000 if deep else 1400)
    m = rng.choice([n, rng.randrange(0, 8), rng.randrange(0, 40),
                    rng.randrange(0, max(1, n) + 1)])
    if n * m > 1200000:
      m = 1200000 // n
    big = n > 350
    if op == 'FindNeighbors' and D > 4 and n + m > 120:
      n, m = min(n, 60), min(m, 40)
    if rng.random() < 0.02 and op == 'FindNeighbors' and not big:
      # more samples than one block of the scan takes
      m, n, D = rng.randrange(500, 1400), rng.randrange(1, 30), 2
      big = True
    dense = op in ('Sampling', 'FindNeighbors') or op.startswith('Compute')
    radii = [rng.choice([0.05, 0.1, 0.25, 0.5, 1.0, 4.0]) * spread
             for _ in range(D if rng.random() < 0.3 else 1)]
    if big and dense:
      radii = [0.05 * spread]
    pts = rnd_points(rng, n, B, D, spread, style)
    if rng.random() < 0.5:
      samples = [list(p) for p in (rng.sample(pts, min(m, n)))]
    else:
      samples = rnd_points(rng, m, B, D, spread, style)
      if rng.random() < 0.3:
        # also outside of the bounding box
        for s in samples:
          k = rng.randrange(D)
          s[1 + k] = float(F(s[1 + k] + rng.choice([-1, 1]) * spread *
                             rng.random() * 2))
    plan = dict(seed=seed, kind=kind, op=op, D=D, B=B, radii=radii,
                cell=[rng.choice([1.0, 1.0, 1.0, 1.5, 3.0])],
                more_cells=[rng.choice([0, 0, 0, 0, 1, 2, -1])
                            for _ in range(D)],
                limit=rng.choice([0, 0, 0, 1, 2, 3, 7, 20]),
                mode=rng.choice([0, 0, 1]), bw=[rng.choice([0.1, 0.2, 0.5, 1.0])
                                                for _ in range(D)],
                K=rng.choice(BASIS), C=rng.choice(CHANNELS))
    if big:
      plan['K'], plan['C'] = 8, rng.choice([1, 3, 8])
    devs = [gpu.Device.draw(rng, light=big).doc()
            for _ in range(1 if big else rng.choice([1, 2, 3]))]
    plan['lists'] = dict(pts=pts, samples=samples, devs=devs)
    if kind == 'alloc':
      plan['fail'] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15])
    if kind == 'device':
      plan['fail'] = rng.choice(list(range(13)) + [16, 20])
    if kind == 'invalid':
      plan['bad'] = self.bad(rng, op)
    if kind == 'shape':
      plan['unknown'] = [rng.choice(['no', 'no', 'dims', 'rank', 'bad'])
                         for _ in SHAPES[op]]
    return plan

  def bad(self, rng, op):
    if op in BAD_ATTR and rng.random() < 0.25:
      return ['attr', BAD_ATTR[op][0], rng.choice(BAD_ATTR[op][1])]
    k = rng.randrange(len(SHAPES[op]))
    how = rng.choice(['more', 'less', 'empty', 'expand', 'flat', 'scalar',
                      'trail', 'swap'])
    return ['shape', k, how, rng.randrange(4)]

  def mutate(self, a, k, how, axis):
    x = a[k]
    axis = axis % max(1, x.ndim)
    if how == 'more':
      reps = np.take(x, [0], axis) if x.shape[axis] else \
          np.zeros([1 if i == axis else s for i, s in enumerate(x.shape)],
                   x.dtype)
      return np.concatenate([x, reps], axis)
    if how == 'less':
      return np.take(x, range(max(0, x.shape[axis] - 1)), axis)
    if how == 'empty':
      return np.take(x, [], axis)
    if how == 'expand':
      return x[None]
    if how == 'trail':
      return x[..., None]
    if how == 'flat':
      return x.reshape(-1)
    if how == 'swap':
      return np.ascontiguousarray(np.swapaxes(x, 0, -1))
    return np.zeros((), x.dtype)

  def run(self, plan, sim):
    if not plan['lists']['devs']:
      raise Skip('no device')
    op = plan['op']
    gpu.load().gpusim_reset()
    if op not in gpu.OPS:
      raise HarnessError('no op ' + op)
    c = Case(plan)
    if len(c.pts) > 200 and not op.startswith('Basis') and op not in (
        'ComputeKeys', 'BuildGridDs'):
      if c.pairs(op != 'FindNeighbors')[1].sum() > 120000:
        raise Skip('too many neighbors to simulate')
    a, attrs = arrays_of(op, c)
    if not fits(op, [x.shape for x in a]):
      raise Skip('not a valid call')
    getattr(self, plan['kind'])(plan, sim, c, op, a, attrs)

  def execute(self, sim, op, a, attrs, dev):
    """One call of the op; the arrays must come back unchanged."""
    copies = [np.array(x) for x in a]

    def fn():
      sim.point('gpu:' + op)
      return gpu.run_op(op, copies, attrs, dev)
    st, r = sim.call(fn)
    if st == 'err':
      raise r
    for k in ('threads', 'blocks', 'switches', 'barriers', 'atomics',
              'lazy_ops', 'launches'):
      if r.stats.get(k):
        sim.probe('gpu ' + k, r.stats[k])
    if r.stats.get('alloc_faults'):
      sim.fired['failed allocation'] = sim.fired.get('failed allocation', 0) + 1
      sim.fault_log.append([op, dev.fail_alloc])
    if r.stats.get('call_faults'):
      sim.fired['failed device call'] = \
          sim.fired.get('failed device call', 0) + 1
      sim.fault_log.append([op, 'call', dev.fail_call])
    text = f'{op} {attrs} on {[x.shape for x in a]}'
    if r.status == 'missing':
      raise HarnessError(r.msg)
    if r.status == 'violation':
      if r.kind == 'harness':
        raise HarnessError(r.msg)
      raise Violation('gpu-' + r.kind, f'{text}: {r.msg} (device {dev.doc()})')
    if r.status == 'exit':
      raise Violation('gpu-process-exit',
                      f'{text} ends the process with code {r.code}')
    if any((x != y).any() if x.dtype != F else
           (x.view(np.int32) != y.view(np.int32)).any()
           for x, y in zip(copies, a) if x.size):
      raise Violation('input-changed', text)
    if r.stats.get('events', 0) != r.stats.get('events_freed', 0):
      raise Violation('resource-leak', f"{text} creates {r.stats['events']} "
                      f"events and releases {r.stats['events_freed']}")
    sim.event('res', op, r.status, r.code, digest_tree(r.outputs))
    if r.status == 'ok':
      sim.ops_ok += 1
    return r

  def good(self, sim, c, op, a, attrs, dev):
    r = self.execute(sim, op, a, attrs, dev)
    if r.status != 'ok':
      raise Violation('unexpected-error', f'{op} {attrs} on '
                      f'{[x.shape for x in a]}: {r.msg} (device {dev.doc()})')
    CHECK[op](c, a, r.outputs)
    sim.checks += 1
    return r

  def valid(self, plan, sim, c, op, a, attrs):
    for d in plan['lists']['devs']:
      self.good(sim, c, op, a, attrs, gpu.Device(**d))

  def invalid(self, plan, sim, c, op, a, attrs):
    bad = plan['bad']
    a2, attrs2 = list(a), dict(attrs)
    if bad[0] == 'attr':
      attrs2[bad[1]] = bad[2]
    else:
      a2[bad[1]] = self.mutate(a, *bad[1:])
      if fits(op, [x.shape for x in a2]):
        raise Skip('still valid')
    for d in plan['lists']['devs']:
      dev = gpu.Device(**d)
      r = self.execute(sim, op, a2, attrs2, dev)
      sim.checks += 1
      sim.probe('invalid call: ' + r.status)
      if r.status != 'error':
        raise Violation('no-error', f'{op} {attrs2} accepts '
                        f'{[x.shape for x in a2]}')
      self.good(sim, c, op, a, attrs, dev)

  def alloc(self, plan, sim, c, op, a, attrs):
    for d in plan['lists']['devs']:
      dev = gpu.Device(**dict(d, fail_alloc=plan['fail']))
      r = self.execute(sim, op, a, attrs, dev)
      sim.checks += 1
      if r.stats.get('alloc_faults'):
        if r.status != 'error':
          raise Violation('no-error', f'{op} succeeds although allocation '
                          f"{plan['fail']} failed")
      elif r.status != 'ok':
        raise Violation('unexpected-error', f'{op}: {r.msg}')
      else:
        CHECK[op](c, a, r.outputs)
      self.good(sim, c, op, a, attrs, gpu.Device(**d))

  def device(self, plan, sim, c, op, a, attrs):
    """A launch, copy or wait fails; the op reports it, the next call works."""
    for d in plan['lists']['devs']:
      dev = gpu.Device(**dict(d, fail_call=plan['fail']))
      r = self.execute(sim, op, a, attrs, dev)
      sim.checks += 1
      if r.stats.get('call_faults'):
        if r.status != 'error':
          raise Violation('no-error', f'{op} succeeds although device call '
                          f"{plan['fail']} failed")
      elif r.status != 'ok':
        raise Violation('unexpected-error', f'{op}: {r.msg}')
      else:
        CHECK[op](c, a, r.outputs)
      self.good(sim, c, op, a, attrs, gpu.Device(**d))

  def shape(self, plan, sim, c, op, a, attrs):
    rng = random.Random(mix('shape', plan['seed']))
    r = self.good(sim, c, op, a, attrs, gpu.Device(**plan['lists']['devs'][0]))
    shapes, wrong = [], False
    for x, how in zip(a, plan['unknown']):
      s = tuple(x.shape)
      if how == 'dims':
        s = tuple(None if rng.random() < 0.6 else n for n in s)
      elif how == 'rank':
        s = None
      elif how == 'bad':
        s = rng.choice([(), s[:-1], s + (1,)])
        wrong = True
      shapes.append(s)
    got = gpu.run_shape(op, shapes, attrs)
    sim.checks += 1
    sim.event('shape', op, got.status, got.outputs)
    text = f'shape of {op} for {shapes}'
    if got.status in ('violation', 'exit'):
      raise Violation('shape-function', f'{text}: {got.msg}')
    if got.status == 'missing':
      raise HarnessError('no shape function of ' + op)
    if wrong:
      return
    if got.status != 'ok':
      raise Violation('shape-function', f'{text}: {got.msg}')
    if len(got.outputs) != len(r.outputs):
      raise Violation('shape-function', f'{text}: {len(got.outputs)} outputs')
    for s, o in zip(got.outputs, r.outputs):
      if s is None:
        continue
      if len(s) != o.ndim or any(p is not None and p != q
                                 for p, q in zip(s, o.shape)):
        raise Violation('shape-function', f'{text}: {got.outputs}, executed '
                        f'{[o.shape for o in r.outputs]}')


SCENARIOS['C19'] = Gpu()
