"""Checks of operation results against the reference models."""
import numpy as np

from sim import gen
from sim import model as M
from sim.core import Violation, HarnessError, Skip
from sim.world import full, tree_close, flat_feats

CHECK = {}


def check(fn):
  CHECK[fn.__name__] = fn
  return fn


def bad(kind, msg):
  raise Violation(kind, msg)


def same(kind, got, want, rtol=1e-5, atol=1e-6):
  """Shape, type class and values."""
  d = tree_close(np.asarray(want), np.asarray(got), rtol, atol)
  if d:
    bad(kind, 'expected and got ' + d)


def one_of(kind, got, wants, rtol=1e-5, atol=1e-6):
  ds = [tree_close(np.asarray(x), np.asarray(got), rtol, atol) for x in wants]
  if all(ds):
    bad(kind, 'expected and got ' + ds[0])


def near(kind, got, want, mag, rel=2e-4, ab=1e-5):
  """Equality up to float32 rounding of sums with absolute magnitude `mag`."""
  got = np.asarray(got, np.float64)
  if got.shape != want.shape:
    bad(kind, f'shape {got.shape} instead of {want.shape}')
  if not np.all(np.isfinite(mag)):
    raise HarnessError('infinite magnitude')
  tol = rel * mag + ab
  err = np.abs(got - want)
  wrong = ~(err <= tol)
  if wrong.any():
    i = tuple(int(v) for v in np.argwhere(wrong)[0])
    bad(kind, f'at {i}: got {got[i]:.7g} instead of {want[i]:.7g} '
        f'({int(wrong.sum())} of {wrong.size} entries differ)')


# -- clouds ---------------------------------------------------------------------

def element_of(m, ident):
  if isinstance(ident, int):
    return ident
  shp = m.shape if m.shape is not None else [m.B]
  return int(np.ravel_multi_index(tuple(ident), tuple(shp)))


@check
def points(w, o, res):
  m = w.m(o['c'])
  if o.get('id') is not None:
    same('points-of-element', res, m.element(element_of(m, o['id'])), 0, 0)
  elif o.get('max') is not None:
    same('padded-points', res, m.pad(m.pts, o['max']), 0, 0)
  else:
    one_of('padded-points', res, [m.pad(m.pts, k) for k in m.widths()], 0, 0)


@check
def sizes(w, o, res):
  m = w.m(o['c'])
  same('sizes', res, m.sizes())


@check
def unflatten(w, o, res):
  m = w.m(o['c'])
  data = gen.features(o['f'], m.N, o['C'])
  ws = [o['max']] if o.get('max') is not None else m.widths()
  one_of('unflatten', res, [m.pad(data, k) for k in ws], 0, 0)


@check
def flatten(w, o, res):
  same('flatten-features', res, flat_feats(w, o['c'], o), 0, 0)


@check
def aabb(w, o, res):
  m = w.m(o['c'])
  lo, hi = m.aabb()
  ok = m.counts() > 0
  if res['lo'].shape != lo.shape or res['hi'].shape != hi.shape:
    bad('bounding-box', f"shapes {res['lo'].shape} {res['hi'].shape}")
  for nm, a, b in (('lower', res['lo'], lo), ('upper', res['hi'], hi)):
    if not np.allclose(a[ok], b[ok], rtol=1e-6, atol=2e-9 + 1e-9):
      bad('bounding-box', f'{nm} corner {a[ok].tolist()} of {b[ok].tolist()}')


@check
def diameter(w, o, res):
  m = w.m(o['c'])
  lo, hi = m.aabb()
  ok = m.counts() > 0
  p = np.inf if o['ord'] == 'inf' else (2 if o['ord'] == 'euclidean'
                                        else o['ord'])
  want = np.array([np.linalg.norm(hi[b] - lo[b], ord=p) if ok[b] else 0
                   for b in range(m.B)])
  shp = tuple(m.shape) if m.shape is not None else (m.B,)
  if tuple(res.shape) != shp:
    bad('diameter', f'shape {res.shape} instead of {shp}')
  got = res.reshape(-1)
  scale = max(1.0, float(np.abs(m.pts).max())) if m.N else 1.0
  if not np.allclose(got[ok], want[ok], rtol=1e-5, atol=1e-6 * scale):
    bad('diameter', f'{got[ok].tolist()} instead of {want[ok].tolist()}')


# -- grids -------------------------------------------------------------------------

def check_keys(m, cells, keys, num):
  """Keys against the documented numbering of cells.

  Returns the cell coordinates.
  """
  D = m.D
  num = np.asarray(num).astype(np.int64)
  if num.shape != (D,):
    bad('num-cells', f'shape {num.shape}')
  a, z = M.num_cells_sets(m.pts, m.ids, cells, m.B)
  if np.any(num < a) or np.any(num > z):
    bad('num-cells', f'{num.tolist()} cells, box needs {a.tolist()}')
  keys = np.asarray(keys).astype(np.int64)
  if keys.shape != (m.N,):
    bad('keys', f'shape {keys.shape} for {m.N} points')
  total = int(np.prod(num))
  b = keys // total
  if np.any(b != m.ids):
    i = int(np.flatnonzero(b != m.ids)[0])
    bad('key-element', f'point {i} of element {m.ids[i]} has key {keys[i]} '
        f'with {total} cells per element')
  rest = keys % total
  coord = np.zeros((m.N, D), np.int64)
  for d in range(D - 1, -1, -1):
    coord[:, d] = rest % num[d]
    rest = rest // num[d]
  lo, hi = M.cell_sets(m.pts, m.ids, cells, m.B)
  lo = np.minimum(lo, num - 1)
  hi = np.minimum(hi, num - 1)
  wrong = (coord < lo) | (coord > hi)
  if wrong.any():
    i, d = (int(v) for v in np.argwhere(wrong)[0])
    bad('key-cell', f'point {i} {m.pts[i].tolist()} lies in cell '
        f'{lo[i].tolist()} but its key {keys[i]} says {coord[i].tolist()}')
  return coord


def check_grid(m, cells, res):
  coord = check_keys(m, cells, res['keys'], res['num'])
  idx = np.asarray(res['idx'])
  if sorted(idx.tolist()) != list(range(m.N)):
    bad('grid-order', 'sorted indices are no permutation')
  if np.any(np.asarray(res['keys'])[idx] != res['skeys']):
    bad('grid-order', 'sorted keys do not belong to the sorted points')
  if np.any(m.pts[idx] != res['pts']):
    bad('grid-order', 'sorted points are not the points at sorted indices')
  if np.any(m.ids[idx] != res['ids']):
    bad('grid-order', 'sorted ids are not the ids at sorted indices')
  k = np.asarray(res['skeys']).astype(np.int64)
  if np.any(np.diff(k) > 0):
    bad('grid-order', 'keys are not in descending order')
  return coord


def check_ds(B, num, skeys, ds):
  num = np.asarray(num).astype(np.int64)
  ds = np.asarray(ds)
  n = len(skeys)
  if ds.shape != (B, num[0], num[1], 2):
    bad('cell-index', f'shape {ds.shape} for {B} elements, {num} cells')
  per = int(np.prod(num[2:])) if len(num) > 2 else 1
  col = np.asarray(skeys).astype(np.int64) // per
  flat = ds.reshape(-1, 2)
  first = np.full(len(flat), -1)
  last = np.full(len(flat), -1)
  for i, c in enumerate(col):
    if first[c] < 0:
      first[c] = i
    last[c] = i + 1
  empty = first < 0
  e = flat[empty]
  if np.any(e[:, 0] != e[:, 1]):
    i = int(np.flatnonzero(e[:, 0] != e[:, 1])[0])
    bad('cell-index', f'empty column has range {e[i].tolist()}')
  full_ = ~empty
  if np.any(flat[full_, 0] != first[full_]) or np.any(
      flat[full_, 1] != last[full_]):
    i = int(np.flatnonzero(full_ & ((flat[:, 0] != first) |
                                    (flat[:, 1] != last)))[0])
    bad('cell-index', f'column {i} holds points {first[i]}:{last[i]} but the '
        f'index says {flat[i].tolist()} (of {n} points)')


@check
def grid(w, o, res):
  m = w.m(o['c'])
  check_grid(m, full(o['cells'], m.D), res)
  if 'ds' in res:
    check_ds(m.B, res['num'], res['skeys'], res['ds'])


@check
def grid_read(w, o, res):
  g = w.m(o['g'])
  check_grid(w.m(g['cloud']), g['cells'], res)


@check
def grid_ds(w, o, res):
  g = w.m(o['g'])
  r = w.r(o['g'])
  check_ds(w.m(g['cloud']).B, np.asarray(r._num_cells),
           np.asarray(r._sorted_keys), res)


# -- neighborhoods ------------------------------------------------------------------

def check_nb(m, cpts, cids, radius, ranges, orig, kmax=0):
  """Pairs [original id, center] and ranges; returns the model distances."""
  dist = M.norm_dist(cpts, cids, m.pts, m.ids, radius)
  must, may = M.pairs(dist)
  nc = len(cpts)
  ranges = np.asarray(ranges).astype(np.int64)
  orig = np.asarray(orig).astype(np.int64)
  if ranges.shape != (nc,):
    bad('ranges', f'shape {ranges.shape} for {nc} centers')
  if orig.ndim != 2 or orig.shape[1] != 2:
    bad('pairs', f'shape {orig.shape}')
  total = int(ranges[-1]) if nc else 0
  if total != len(orig):
    bad('ranges', f'end at {total}, there are {len(orig)} pairs')
  start = np.concatenate([[0], ranges[:-1]]) if nc else np.zeros(0, int)
  if np.any(ranges < start):
    bad('ranges', 'not increasing')
  for c in range(nc):
    seg = orig[start[c]:ranges[c]]
    if np.any(seg[:, 1] != c):
      bad('pairs-grouping', f'range of center {c} contains center '
          f'{seg[seg[:, 1] != c][0, 1]}')
    ids = seg[:, 0]
    if len(ids) and (ids.min() < 0 or ids.max() >= m.N):
      bad('neighbor-id', f'center {c} has neighbor id {ids.min()}..{ids.max()}'
          f' of {m.N} points')
    if len(set(ids.tolist())) != len(ids):
      bad('neighbor-repeated', f'center {c}: {sorted(ids.tolist())}')
    no = [int(i) for i in ids if not may[c, i]]
    if no:
      i = no[0]
      bad('false-neighbor', f'center {c} {cpts[c].tolist()} has neighbor {i} '
          f'{m.pts[i].tolist()} at {dist[c, i]:.6g} radii')
    lo, hi = int(must[c].sum()), int(may[c].sum())
    if kmax:
      if len(ids) < min(kmax, lo) or len(ids) > min(kmax, hi):
        bad('neighbor-limit', f'center {c} has {len(ids)} neighbors of {lo} '
            f'with limit {kmax}')
    else:
      miss = sorted(set(np.flatnonzero(must[c]).tolist()) - set(ids.tolist()))
      if miss:
        i = miss[0]
        bad('missing-neighbor', f'center {c} {cpts[c].tolist()} lacks neighbor '
            f'{i} {m.pts[i].tolist()} at {dist[c, i]:.6g} radii')
  return dist


def centers_of(w, gname, centers, res=None):
  """Expected center points: the given cloud or the sorted points."""
  if centers:
    c = w.m(centers)
    return c.pts, c.ids
  g = w.r(gname)
  return np.asarray(g._sorted_points), np.asarray(g._sorted_batch_ids)


def check_nb_result(w, gname, centers, radius, res, kmax=0):
  g = w.m(gname)
  m = w.m(g['cloud'])
  cpts, cids = centers_of(w, gname, centers)
  if res['cpts'].shape != cpts.shape or np.any(res['cpts'] != cpts) or \
      np.any(res['cids'] != cids):
    bad('centers', 'the centers are not the given ones')
  check_nb(m, cpts, cids, radius, res['ranges'], res['orig'], kmax)
  nb_, orig = np.asarray(res['nb']), np.asarray(res['orig'])
  if nb_.shape != orig.shape or np.any(nb_[:, 1] != orig[:, 1]):
    bad('pairs', 'sorted and original ids disagree on the centers')
  if len(nb_):
    if nb_[:, 0].min() < 0 or nb_[:, 0].max() >= m.N:
      bad('neighbor-id', 'sorted id out of range')
    if np.any(np.asarray(res['sidx'])[nb_[:, 0]] != orig[:, 0]):
      bad('pairs', 'sorted and original ids disagree')


@check
def nb(w, o, res):
  m = w.m(w.m(o['g'])['cloud'])
  check_nb_result(w, o['g'], o.get('centers'), full(o['radius'], m.D), res,
                  o.get('max') or 0)


@check
def nb_read(w, o, res):
  n = w.m(o['n'])
  check_nb_result(w, n['grid'], n['centers'], n['radius'], res, n['max'])


@check
def nb_func(w, o, res):
  g = w.m(o['g'])
  m = w.m(g['cloud'])
  cpts, cids = centers_of(w, o['g'], o.get('centers'))
  pr = np.asarray(res['nb']).copy()
  if o.get('sorted'):
    sidx = np.asarray(w.r(o['g'])._sorted_indices)
    if len(pr) and (pr[:, 0].min() < 0 or pr[:, 0].max() >= m.N):
      bad('neighbor-id', 'sorted id out of range')
    pr[:, 0] = sidx[pr[:, 0]]
  check_nb(m, cpts, cids, full(o['radius'], m.D), res['ranges'], pr,
           o.get('max') or 0)


# -- densities -----------------------------------------------------------------------

def pdf_values(m, radius, orig, bw, nopdf, norm):
  """Expected value and tolerance per pair."""
  orig = np.asarray(orig)
  if nopdf:
    val = np.ones(len(orig))
    tol = np.zeros(len(orig))
  else:
    lo, sl, _, _ = M.kernel_sum(m.pts, m.ids, radius, full(bw, m.D))
    val, tol = lo[orig[:, 0]], sl[orig[:, 0]]
  if norm and len(orig):
    cnt = np.bincount(orig[:, 1])
    val = val / cnt[orig[:, 1]]
    tol = tol / cnt[orig[:, 1]]
  return val, tol


def pair_pdf(w, n, real, bw, nopdf, norm):
  m = w.m(w.m(n['grid'])['cloud'])
  return pdf_values(m, n['radius'], real._original_neigh_ids, bw, nopdf, norm)


def pdf_state(o):
  """(bandwidth, none, normalised) asked for by an op."""
  if o.get('bw') is None:
    return (0.2, False, False)
  return (o['bw'], bool(o.get('nopdf')), bool(o.get('norm')))


def check_pdf(got, val, tol, kind='density'):
  got = np.asarray(got, np.float64)
  if got.shape != val.shape:
    bad(kind, f'shape {got.shape} instead of {val.shape}')
  wrong = ~((got >= val - 3e-4 * np.abs(val) - 1e-7) &
            (got <= val + tol + 3e-4 * (np.abs(val) + tol) + 1e-7))
  if wrong.any():
    i = int(np.flatnonzero(wrong)[0])
    bad(kind, f'pair {i}: got {got[i]:.7g} instead of {val[i]:.7g}'
        f' ({int(wrong.sum())} of {len(got)} differ)')


@check
def pdf_compute(w, o, res):
  n = w.m(o['n'])
  val, tol = pair_pdf(w, n, w.r(o['n']), o['bw'], o.get('nopdf'),
                      o.get('norm'))
  check_pdf(res, val, tol)
  n['pdf'] = (o['bw'], bool(o.get('nopdf')), bool(o.get('norm')))


@check
def pdf_get(w, o, res):
  n = w.m(o['n'])
  if n['pdf'] is None:
    n['pdf'] = pdf_state(o)
  val, tol = pair_pdf(w, n, w.r(o['n']), *n['pdf'])
  check_pdf(res, val, tol)


@check
def density(w, o, res):
  m = w.m(o['c'])
  if o.get('nopdf'):
    val, tol = np.ones(m.N), np.zeros(m.N)
  else:
    val, tol, _, _ = M.kernel_sum(m.pts, m.ids, full(o['radius'], m.D),
                                  full(o['bw'], m.D))
  check_pdf(res, val, tol, 'density-of-cloud')


@check
def density_nb(w, o, res):
  n = w.m(o['n'])
  n = dict(n, radius=full(o['radius'], w.m(w.m(n['grid'])['cloud']).D))
  val, tol = pair_pdf(w, n, w.r(o['n']), o['bw'], o.get('nopdf'),
                      o.get('norm'))
  check_pdf(res, val, tol, 'density-in-neighborhoods')


@check
def density_grad(w, o, res):
  m = w.m(o['c'])
  rad, bw = full(o['radius'], m.D), full(o['bw'], m.D)
  up = gen.features(o['f'], m.N, 1)[:, 0]
  dist = M.norm_dist(m.pts, m.ids, m.pts, m.ids, rad)
  if not M.clear_radius(dist):
    return
  want = M.density_grad(m.pts, m.ids, rad, bw, up)
  if res is None:
    bad('density-gradient', 'no gradient')
  _, _, k, diff = M.kernel_sum(m.pts, m.ids, rad, bw)
  mag = np.abs(k[:, :, None] * diff / (rad * bw))
  mag = mag.sum(1) + mag.sum(0)
  scale = float(np.abs(m.pts).max()) / float((rad * bw).min())
  near('density-gradient', res, want, mag, rel=1e-3 + 1e-6 * scale,
       ab=1e-5 + 1e-6 * scale * float((k.max() if k.size else 0) /
                                      (rad * bw).min()))


# -- transposes -----------------------------------------------------------------------

def transposed_model(w, n):
  """(point cloud, centers) of the transpose of a neighborhood with centers."""
  return w.m(n['centers']), w.m(w.m(n['grid'])['cloud'])


def check_transposed(m, ctr, radius, res):
  if res['cpts'].shape != ctr.pts.shape or np.any(res['cpts'] != ctr.pts) or \
      np.any(res['cids'] != ctr.ids):
    bad('transpose-centers', 'the centers are not the former neighbor cloud')
  check_nb(m, ctr.pts, ctr.ids, radius, res['ranges'], res['orig'])
  nb_, orig = np.asarray(res['nb']), np.asarray(res['orig'])
  if nb_.shape != orig.shape or np.any(nb_[:, 1] != orig[:, 1]):
    bad('transpose-pairs', 'sorted and original ids disagree on the centers')
  if len(nb_):
    if nb_[:, 0].min() < 0 or nb_[:, 0].max() >= m.N:
      bad('transpose-pairs', 'sorted id out of range')
    if np.any(np.asarray(res['sidx'])[nb_[:, 0]] != orig[:, 0]):
      bad('transpose-pairs', 'sorted and original ids disagree')


@check
def transpose2(w, o, res):
  n = w.m(o['n'])
  if not n['centers']:
    for k in ('t', 'tt', 'again'):
      check_nb_result(w, n['grid'], None, n['radius'], res[k])
    return
  m, ctr = transposed_model(w, n)
  check_transposed(m, ctr, n['radius'], res['t'])
  check_transposed(m, ctr, n['radius'], res['again'])
  check_transposed(ctr, m, n['radius'], res['tt'])
  # the same pairs, exchanged (up to pairs on the surface of the ball)
  have = {(int(a), int(b)) for b, a in res['t']['orig']}
  src = {(int(a), int(b)) for a, b in
         np.asarray(w.r(o['n'])._original_neigh_ids)}
  if have != src:
    dist = M.norm_dist(m.pts, m.ids, ctr.pts, ctr.ids, n['radius'])
    for a, b in have ^ src:
      if abs(dist[b, a] - 1) > M.BAND:
        bad('transpose-pairs', f'pair {(a, b)} is in only one of the two')


@check
def t_pdf(w, o, res):
  n = w.m(o['n'])
  key = 'tpdf' if n['centers'] else 'pdf'
  if o.get('compute') or n.get(key) is None:
    n[key] = pdf_state(o)
  if n['centers']:
    m = transposed_model(w, n)[0]
  else:
    m = w.m(w.m(n['grid'])['cloud'])
  val, tol = pdf_values(m, n['radius'], res['orig'], *n[key])
  check_pdf(res['pdf'], val, tol, 'density-of-transpose')


# -- projection ------------------------------------------------------------------------

@check
def basis(w, o, res):
  n = w.r(o['n'])
  m = w.m(w.m(o['n'])['cloud'])
  orig = np.asarray(n._original_neigh_ids)
  nc = int(n._point_cloud_sampled._points.shape[0])
  b = gen.features(o['b'], len(orig), o['H']).astype(np.float64)
  f = gen.features(o['f'], m.N, o['C']).astype(np.float64)
  want = np.zeros((nc, o['C'], o['H']))
  mag = np.zeros_like(want)
  t = f[orig[:, 0]][:, :, None] * b[:, None, :]
  np.add.at(want, orig[:, 1], t)
  np.add.at(mag, orig[:, 1], np.abs(t))
  near('projection', res['out'], want, mag, 2e-5, 1e-6)
  if o.get('grad'):
    up = gen.features(o['u'], nc, o['C'] * o['H']).reshape(
        nc, o['C'], o['H']).astype(np.float64)
    u = up[orig[:, 1]]
    gb = (u * f[orig[:, 0]][:, :, None]).sum(1)
    mb = np.abs(u * f[orig[:, 0]][:, :, None]).sum(1)
    gf = np.zeros_like(f)
    mf = np.zeros_like(f)
    t = (u * b[:, None, :]).sum(2)
    np.add.at(gf, orig[:, 0], t)
    np.add.at(mf, orig[:, 0], np.abs(u * b[:, None, :]).sum(2))
    if res['gb'] is None or res['gf'] is None:
      bad('projection-gradient', 'missing')
    near('basis-gradient', res['gb'], gb, mb, 2e-5, 1e-6)
    near('feature-gradient', res['gf'], gf, mf, 2e-5, 1e-6)


# -- sampling --------------------------------------------------------------------------

def check_poisson(m, radius, res, need_idx=True):
  pts, ids = np.asarray(res['pts']), np.asarray(res['ids']).astype(np.int64)
  if pts.ndim != 2 or pts.shape[1] != m.D or ids.shape != (len(pts),):
    bad('sample', f'shapes {pts.shape} {ids.shape}')
  if res.get('idx') is not None:
    idx = np.asarray(res['idx']).astype(np.int64)
    if idx.shape != (len(pts),) or (len(idx) and (idx.min() < 0 or
                                                  idx.max() >= m.N)):
      bad('sample-index', f'{idx.tolist()} of {m.N} points')
    if np.any(m.pts[idx] != pts) or np.any(m.ids[idx] != ids):
      bad('sample-index', 'the points at the indices are not the samples')
  elif need_idx:
    bad('sample-index', 'no indices')
  # subset, in the right element
  have = {(int(i),) + tuple(p.tolist()) for p, i in zip(m.pts, m.ids)}
  for p, i in zip(pts, ids):
    if (int(i),) + tuple(p.tolist()) not in have:
      bad('sample-subset', f'{p.tolist()} is not in element {int(i)}')
  d = M.norm_dist(pts, ids, pts, ids, radius)
  np.fill_diagonal(d, np.inf)
  if d.size and d.min() < 1 - M.BAND:
    i, j = (int(v) for v in np.unravel_index(d.argmin(), d.shape))
    bad('sample-separation', f'samples {pts[i].tolist()} and {pts[j].tolist()}'
        f' are {d[i, j]:.6g} radii apart')
  c = M.norm_dist(m.pts, m.ids, pts, ids, radius)
  dmin = c.min(1) if len(pts) else np.full(m.N, np.inf)
  if m.N and dmin.max() > 1 + M.BAND:
    i = int(dmin.argmax())
    bad('sample-coverage', f'point {m.pts[i].tolist()} of element '
        f'{int(m.ids[i])} has no sample within the radius '
        f'({dmin[i]:.6g} radii, {len(pts)} samples)')
  check_sample_sizes(m, ids, res)


def check_sample_sizes(m, ids, res):
  if 'sizes' in res:
    want = np.bincount(ids, minlength=m.B)
    got = np.asarray(res['sizes']).reshape(-1)
    if len(got) != m.B or np.any(got != want):
      bad('sample-sizes', f'{got.tolist()} instead of {want.tolist()}')


def check_average(m, cells, keys, num, res):
  """keys: of the points (validated against the cells)."""
  check_keys(m, cells, keys, num)
  pts, ids = np.asarray(res['pts']), np.asarray(res['ids']).astype(np.int64)
  keys = np.asarray(keys).astype(np.int64)
  uniq = sorted(set(keys.tolist()))
  if pts.ndim != 2 or pts.shape != (len(uniq), m.D) or ids.shape != (len(pts),):
    bad('average-count', f'{pts.shape} samples for {len(uniq)} occupied cells')
  scale = float(np.abs(m.pts).max()) if m.N else 1
  want = [(int(m.ids[keys == k][0]),) + (m.pts[keys == k].astype(
      np.float64).mean(0),) for k in uniq]
  used = [False] * len(want)
  for p, i in zip(pts.astype(np.float64), ids):
    hit = [j for j, (b, q) in enumerate(want) if not used[j] and
           np.all(np.abs(q - p) <= 1e-5 * scale + 1e-7)]
    if not hit:
      bad('average-mean', f'{p.tolist()} is not the mean of a cell')
    good = [j for j in hit if want[j][0] == i]
    if not good:
      bad('average-element', f'{p.tolist()} labelled {int(i)} instead of '
          f'{want[hit[0]][0]}')
    used[good[0]] = True
  check_sample_sizes(m, ids, res)


def ref_keys(m, cells):
  """Unambiguous keys from the model, or Skip."""
  num_a, num_z = M.num_cells_sets(m.pts, m.ids, cells, m.B)
  a, z = M.cell_sets(m.pts, m.ids, cells, m.B)
  a, z = np.minimum(a, num_a - 1), np.minimum(z, num_z - 1)
  if np.any(num_a != num_z) or np.any(a != z):
    return None, None
  keys = m.ids.copy()
  for d in range(m.D):
    keys = keys * num_a[d] + a[:, d]
  return keys, num_a


@check
def sample(w, o, res):
  from pylib.pc.sampling import sample_modes  # names only  # noqa
  n = w.m(o['n'])
  m = w.m(n['cloud'])
  if 'poisson' in o['mode'].lower():
    check_poisson(m, n['radius'], res)
  else:
    g = w.r(n['grid'])
    check_average(m, w.m(n['grid'])['cells'], np.asarray(g._cur_keys),
                  np.asarray(g._num_cells), res)


@check
def poisson(w, o, res):
  if o.get('n'):
    n = w.m(o['n'])
    check_poisson(w.m(n['cloud']), n['radius'], res, bool(o.get('ret')))
  else:
    m = w.m(o['c'])
    check_poisson(m, full(o['radius'], m.D), res, bool(o.get('ret')))


@check
def cellavg(w, o, res):
  if o.get('g'):
    g = w.m(o['g'])
    r = w.r(o['g'])
    check_average(w.m(g['cloud']), g['cells'], np.asarray(r._cur_keys),
                  np.asarray(r._num_cells), res)
    return
  m = w.m(o['c'])
  cells = full(o['cells'], m.D)
  keys, num = ref_keys(m, cells)
  if keys is None:
    from pylib.pc import Grid
    g = Grid(w.r(o['c']), np.asarray(cells, np.float32))
    keys, num = np.asarray(g._cur_keys), np.asarray(g._num_cells)
  check_average(m, cells, keys, num, res)


# -- hierarchies -------------------------------------------------------------------------

def check_levels(w, cname, cells, mode, res):
  """Every level is a valid sample of the level before it."""
  m = w.m(cname)
  if res['n'] != len(cells) + 1:
    bad('hierarchy-length', f"{res['n']} levels for {len(cells)} cell sizes")
  if np.any(res['pts'][0] != m.pts) or np.any(res['ids'][0] != m.ids):
    bad('hierarchy-base', 'level 0 is not the given cloud')
  cur = m
  levels = [m]
  for i, cs in enumerate(cells):
    nxt = dict(pts=res['pts'][i + 1], ids=res['ids'][i + 1])
    cs = full(cs, m.D)
    if 'poisson' in mode.lower():
      check_poisson(cur, cs, nxt, need_idx=False)
    else:
      keys, num = ref_keys(cur, cs)
      if keys is None:
        from pylib.pc import Grid, PointCloud
        g = Grid(PointCloud(cur.pts, cur.ids.astype(np.int32), cur.B),
                 np.asarray(cs, np.float32))
        keys, num = np.asarray(g._cur_keys), np.asarray(g._num_cells)
      check_average(cur, cs, keys, num, nxt)
    cur = M.MCloud(nxt['pts'], nxt['ids'], m.B, m.shape, None, m.shape)
    levels.append(cur)
  return levels


@check
def hier(w, o, res):
  lv = check_levels(w, o['c'], o['cells'], o['mode'], res)
  for i, (m, s) in enumerate(zip(lv, res['sizes'])):
    same('hierarchy-sizes', s, m.sizes())


def h_models(w, o):
  h = w.m(o['h'])
  if 'levels' not in h:
    real = w.r(o['h'])
    n = len(real)
    h['levels'] = check_levels(
        w, h['cloud'], h['cells'], h['mode'],
        dict(n=n, pts=[np.asarray(real[i]._points) for i in range(n)],
             ids=[np.asarray(real[i]._batch_ids) for i in range(n)]))
  return h['levels']


@check
def h_levels(w, o, res):
  h = w.m(o['h'])
  check_levels(w, h['cloud'], h['cells'], h['mode'], res)
  lv = h_models(w, o)
  for i, m in enumerate(lv):
    same('hierarchy-level', res['pts'][i], m.pts, 0, 0)
    same('hierarchy-level', res['ids'][i], m.ids)


@check
def h_points(w, o, res):
  lv = h_models(w, o)
  if len(res) != len(lv):
    bad('hierarchy-points', f'{len(res)} entries for {len(lv)} levels')
  for m, r in zip(lv, res):
    if o.get('id') is not None:
      same('hierarchy-points', r, m.element(element_of(m, o['id'])), 0, 0)
    elif o.get('max') is not None:
      same('hierarchy-points', r, m.pad(m.pts, o['max']), 0, 0)
    else:
      one_of('hierarchy-points', r, [m.pad(m.pts, k) for k in m.widths()],
             0, 0)


@check
def h_sizes(w, o, res):
  lv = h_models(w, o)
  if len(res) != len(lv):
    bad('hierarchy-sizes', f'{len(res)} entries for {len(lv)} levels')
  for m, r in zip(lv, res):
    same('hierarchy-sizes', r, m.sizes())


@check
def h_nb(w, o, res):
  h = w.m(o['h'])
  lv = h_models(w, o)
  cells = h['cells']
  if o.get('i') is None:
    if len(res) != len(cells):
      bad('hierarchy-neighborhoods', f'{len(res)} for {len(cells)} levels')
    todo = list(enumerate(res))
  else:
    todo = [(o['i'] % len(cells), res)]
  for i, r in todo:
    m = lv[i]
    # the pairs of level i within its cell sizes, centers are grid sorted
    rad = full(cells[i], m.D)
    have = sorted((int(b),) + tuple(p) for b, p in
                  zip(r['cids'], r['cpts'].tolist()))
    want = sorted((int(b),) + tuple(p) for b, p in zip(m.ids, m.pts.tolist()))
    if have != want:
      bad('hierarchy-neighborhoods', f'centers of level {i} are not its points')
    check_nb(m, r['cpts'], np.asarray(r['cids']), rad, r['ranges'], r['orig'])


# -- layers -----------------------------------------------------------------------------

def nbs_of(w, o, ci, co):
  """Neighbors per output point; Skip if a pair is too close to call."""
  rad = full(o['radius'], ci.D)
  dist = M.norm_dist(co.pts, co.ids, ci.pts, ci.ids, rad)
  if not M.clear_radius(dist):
    raise Skip('pair on the surface of the ball')
  return M.nb_lists(dist)


def conv_value(w, o, feats, spec, wm, ci, co, pdfstate=None):
  """(value, magnitude[, loss]) of a convolution at the output points."""
  nbs = nbs_of(w, o, ci, co)
  rad = float(np.atleast_1d(o['radius'])[0])
  if spec['lt'] == 'kp':
    sigma = o['infl'] / rad if o['infl'] is not None else 1.0
    return M.kpconv(wm, feats, ci.pts, co.pts, rad, sigma, nbs)
  bw, nopdf, norm = pdfstate or (o['bw'], False, False)
  if nopdf:
    pdf = np.ones(ci.N)
  else:
    pdf, slack, _, _ = M.kernel_sum(ci.pts, ci.ids, rad, bw)
    if np.any(slack > 1e-4 * pdf):
      raise Skip('pair on the surface of the ball')
  if norm:
    raise HarnessError('normalised density in a convolution')
  if spec['lt'] == 'mc':
    return M.mcconv(wm, feats, ci.pts, co.pts, rad, pdf, nbs)
  return M.pointconv(wm, feats, ci.pts, co.pts, pdf, nbs)


@check
def conv(w, o, res):
  spec, wm = w.spec[o['l']], w.m(o['l'])
  ci = w.m(o['cin'])
  feats = flat_feats(w, o['cin'], o)
  if spec['lt'] == '1x1':
    f = feats.astype(np.float64)
    val = f @ wm['W'].astype(np.float64) + wm['b']
    mag = np.abs(f) @ np.abs(wm['W']) + np.abs(wm['b'])
    check_output('conv1x1', w, o, ci, res, val, mag, 1e-5)
    return
  co = w.m(o['cout'])
  st = None
  if o.get('n') and spec['lt'] != 'kp':
    n = w.m(o['n'])
    if n['pdf'] is None:
      n['pdf'] = (o['bw'], False, False)
    st = n['pdf']
  out = conv_value(w, o, feats, spec, wm, ci, co, st)
  check_output('conv-' + spec['lt'], w, o, co, res, out[0], out[1], 1e-3)
  if spec['lt'] == 'kp':
    wm['last'] = (out[2], co.N)


def check_output(kind, w, o, co, res, val, mag, rel):
  vals = M.format_output(co, val, o.get('srt'), o.get('pad'))
  mags = M.format_output(co, mag, o.get('srt'), o.get('pad'))
  err = None
  for v, g in zip(vals, mags):
    try:
      near(kind, res, v, g, rel, 1e-5)
      return
    except Violation as e:
      err = err or e
  raise err


@check
def kp_loss(w, o, res):
  loss, n = w.m(o['l'])['last']
  near('regularization-loss', np.asarray(res), np.asarray(loss),
       np.asarray(abs(loss)), 2e-3, 1e-3)


@check
def pool(w, o, res):
  ci = w.m(o['cin'])
  feats = flat_feats(w, o['cin'], o).astype(np.float64)
  p = w.m(o['p'])['p']
  C = feats.shape[1]
  if p in ('gmax', 'gavg'):
    want = np.zeros((ci.B, C))
    known = ci.counts() > 0
    for b in range(ci.B):
      e = feats[ci.ids == b]
      if len(e):
        want[b] = e.max(0) if p == 'gmax' else e.mean(0)
    shp = (ci.B, C)
    if o.get('pad'):
      shp = tuple(ci.shape) + (C,)
    if res.shape != shp:
      bad('global-pooling', f'shape {res.shape} instead of {shp}')
    near('global-pooling', res.reshape(ci.B, C)[known], want[known],
         np.ones_like(want[known]), 1e-5, 1e-6)
    return
  co = w.m(o['cout'])
  nbs = nbs_of(w, o, ci, co)
  want = np.zeros((co.N, C))
  known = np.zeros((co.N, C))
  for i, nb_ in enumerate(nbs):
    if len(nb_):
      known[i] = 1
      want[i] = feats[nb_].max(0) if p == 'max' else feats[nb_].mean(0)
  vals = M.format_output(co, want, o.get('srt'), o.get('pad'))
  knows = M.format_output(co, known, o.get('srt'), o.get('pad'))
  err = None
  for v, k in zip(vals, knows):
    if res.shape != v.shape:
      err = err or Violation('local-pooling',
                             f'shape {res.shape} instead of {v.shape}')
      continue
    # padding must be zero, points without neighbors are not specified
    pads = M.format_output(co, np.ones((co.N, C)), o.get('srt'), o.get('pad'))
    isp = [q for q in pads if q.shape == v.shape][0] == 0
    sel = (k > 0) | isp
    try:
      near('local-pooling', res[sel], v[sel], np.ones(int(sel.sum())), 1e-5,
           1e-6)
      return
    except Violation as e:
      err = err or e
  raise err


# -- residual blocks ------------------------------------------------------------------

def block_chain(w, o, feats=None):
  """(features, error bound, batch statistics) of a residual block."""
  s, wm = w.spec[o['b']], w.m(o['b'])
  ci = w.m(o['cin'])
  if feats is None:
    feats = flat_feats(w, o['cin'], o)
  x = np.asarray(feats, np.float64)
  err = np.abs(x) * 1e-6
  bns = []

  def bn(x, e, i):
    p = wm['bn'][i]
    if o.get('train'):
      if not len(x):
        raise Skip('no points')
      mean, var = x.mean(0), x.var(0)
      bns.append((i, mean, var))
      f = p['gamma'] / np.sqrt(var + p['eps'])
      e = 4 * e.max(0) * np.abs(f) + 1e-6 * np.abs(x).max() * np.abs(f)
      return (x - mean) * f + p['beta'], np.broadcast_to(e, x.shape) + 1e-6
    f = p['gamma'] / np.sqrt(p['var'] + p['eps'])
    y = (x - p['mean']) * f + p['beta']
    return y, (e + 2e-6 * (np.abs(x) + np.abs(p['mean']))) * np.abs(f) + 1e-6

  def relu(x, e):
    return np.maximum(x, 0), e

  def linear(x, e, Wb):
    W, b = (np.asarray(v, np.float64) for v in Wb)
    return x @ W + b, (e + 2e-6 * np.abs(x)) @ np.abs(W) + 1e-6 * np.abs(b)

  def conv(x, e, i, a, c, rad, n):
    oo = dict(radius=rad, infl=o.get('infl'), bw=o.get('bw'))
    st = None
    if n is not None and s['conv']['lt'] != 'kp':
      nm = w.m(n)
      if nm.get('pdf') is None:
        nm['pdf'] = (o['bw'], False, False)
      st = nm['pdf']
    y = conv_value(w, oo, x, s['conv'], wm['conv'][i], a, c, st)
    z = conv_value(w, oo, e, s['conv'], wm['conv'][i], a, c, st)
    return y[0], z[1] * 1.5 + 3e-4 * y[1]

  ns = o.get('ns')
  for i in range(s['blocks']):
    sk, se = x, err
    if s['bt'] == 'plain':
      for j in (2 * i, 2 * i + 1):
        x, err = relu(*bn(x, err, j))
        x, err = conv(x, err, j, ci, ci, o['radii'][0], ns[0] if ns else None)
    elif s['bt'] == 'bottle':
      x, err = relu(*bn(x, err, 3 * i))
      x, err = linear(x, err, wm['down'][i])
      x, err = relu(*bn(x, err, 3 * i + 1))
      x, err = conv(x, err, i, ci, ci, o['radii'][0], ns[0] if ns else None)
      x, err = relu(*bn(x, err, 3 * i + 2))
      x, err = linear(x, err, wm['up'][i])
    else:
      cd = w.m(o['cdown'])
      ends = [(ci, cd), (cd, cd), (cd, ci)]
      for j, (a, c) in enumerate(ends):
        x, err = relu(*bn(x, err, 3 * i + j))
        x, err = conv(x, err, 3 * i + j, a, c, o['radii'][j],
                      ns[j] if ns else None)
    if s['proj']:
      sk, se = linear(sk, se, wm['proj'][i])
    x, err = x + sk, err + se
  return x, err, bns


def block_stats(w, o, bns):
  """Moving averages after a call in training mode."""
  for i, mean, var in bns:
    p = w.m(o['b'])['bn'][i]
    p['mean'] = p['mean'] * p['mom'] + mean * (1 - p['mom'])
    p['var'] = p['var'] * p['mom'] + var * (1 - p['mom'])


@check
def block(w, o, res):
  co = w.m(o['cin'])
  val, err, bns = block_chain(w, o)
  block_stats(w, o, bns)
  if not np.all(np.isfinite(val)):
    raise Skip('overflow')
  check_output('block-' + w.spec[o['b']]['bt'], w, o, co, res, val,
               err + 1e-5 * np.abs(val), 1.0)


# -- kernel points --------------------------------------------------------------------

def pair_dist(p):
  p = np.asarray(p, np.float64)
  return np.sqrt(((p[:, None] - p[None]) ** 2).sum(-1))


def check_kernel(pts, K, radius):
  pts = np.asarray(pts)
  if pts.shape != (K, 3):
    bad('kernel-count', f'{pts.shape} for {K} kernel points')
  if not np.all(np.isfinite(pts)):
    bad('kernel-points', 'not finite')
  norm = np.sqrt((pts.astype(np.float64)**2).sum(1))
  if norm.max() > radius * (1 + 1e-5):
    bad('kernel-sphere', f'a kernel point has norm {norm.max():.6g}')
  if norm.min() > 1e-6:
    bad('kernel-centre', 'no kernel point at the centre')
  d = pair_dist(pts)
  np.fill_diagonal(d, np.inf)
  if d.min() < 1e-2:
    bad('kernel-distinct', f'two kernel points are {d.min():.3g} apart')
  np.fill_diagonal(d, 0)
  # a regular layout: the same mass on all sides of the centre, no two points
  # close together
  scale = norm.max()
  if np.abs(pts.sum(0)).max() > 1e-4 * scale:
    bad('kernel-balance', 'the kernel points are not balanced around the '
        f'centre, they sum to {pts.sum(0)}')
  spread = d + np.eye(K) * 9
  if spread.min() < 0.75 * scale:
    bad('kernel-spread', f'two kernel points are {spread.min() / scale:.3g} '
        'of the radius apart')
  if K != 18 and np.sum(np.abs(norm - scale) > 1e-5 * scale) != 1:
    bad('kernel-sphere', 'the kernel points do not lie on one sphere')
  return d


@check
def kernel(w, o, res):
  d = check_kernel(res, o['K'], 1.0)
  from pylib.pc.layers.utils import spherical_kernel_points
  ref = pair_dist(np.asarray(spherical_kernel_points(o['K'], False)))
  if np.abs(ref - d).max() > 1e-5:
    bad('kernel-rigid', f'rotation changes distances by '
        f'{np.abs(ref - d).max():.3g}')


@check
def kp_default(w, o, res):
  d = check_kernel(res['pts'], o['K'], 1.0)
  from pylib.pc.layers.utils import spherical_kernel_points
  ref = pair_dist(np.asarray(spherical_kernel_points(o['K'], False)))
  s = d.max() / ref.max()
  if np.abs(ref * s - d).max() > 1e-5:
    bad('kernel-rigid', 'the kernel of the layer is no rotation of the layout')


@check
def rotate(w, o, res):
  pts = gen.features(o['f'], o['N'], 3)
  if res.shape != pts.shape:
    bad('rotation', f'shape {res.shape}')
  if np.abs(pair_dist(pts) - pair_dist(res)).max() > 1e-5 or np.abs(
      np.linalg.norm(pts, axis=1) - np.linalg.norm(res, axis=1)).max() > 1e-5:
    bad('rotation', 'a rotation changes distances')
  if len(pts) >= 3:
    # the volume spanned by three points keeps its sign
    a, b = (np.linalg.det(np.asarray(p[:3], np.float64)) for p in (pts, res))
    if abs(a - b) > 1e-4 * (1 + np.abs(pts).max())**3:
      bad('rotation', 'a rotation mirrors the points')
