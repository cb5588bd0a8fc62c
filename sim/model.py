"""Independent reference models (numpy, float64, brute force)."""
import itertools

import numpy as np

BAND = 1e-4     # relative band around a radius in which either answer is right


class MCloud:
  """Flat points with element ids; what a batched point cloud means."""

  def __init__(self, pts, ids, B, shape=None, width=None, sizes_shape=None):
    self.pts = np.asarray(pts, np.float32)
    self.ids = np.asarray(ids, np.int64)
    self.B = B
    self.shape = shape          # batch shape or None
    self.width = width          # padded input width, allowed default
    self.sizes_shape = sizes_shape if sizes_shape is not None else shape
    self.D = self.pts.shape[1]
    self.N = self.pts.shape[0]

  def counts(self):
    return np.bincount(self.ids, minlength=self.B)

  def sizes(self):
    c = self.counts()
    return c if self.sizes_shape is None else c.reshape(self.sizes_shape)

  def order(self):
    return np.argsort(self.ids, kind='stable')

  def element(self, b):
    return self.pts[self.ids == b]

  def pad(self, data, width):
    data = np.asarray(data)
    out = np.zeros((self.B, width) + data.shape[1:], data.dtype)
    for b in range(self.B):
      e = data[self.ids == b]
      out[b, :len(e)] = e
    shp = self.sizes_shape if self.sizes_shape is not None else [self.B]
    return out.reshape(tuple(shp) + (width,) + data.shape[1:])

  def widths(self):
    """Default widths that conform to the documentation."""
    w = [int(self.counts().max())]
    if self.width is not None:
      w.append(self.width)
    return w

  def aabb(self):
    lo = np.full((self.B, self.D), np.nan)
    hi = np.full((self.B, self.D), np.nan)
    for b in range(self.B):
      e = self.element(b)
      if len(e):
        lo[b], hi[b] = e.min(0), e.max(0)
    return lo, hi

  def copy(self):
    c = MCloud(self.pts, self.ids, self.B, self.shape, self.width,
               self.sizes_shape)
    return c


def norm_dist(cpts, cids, npts, nids, radii):
  """[centers, points] distances in units of the radius, inf across elements."""
  radii = np.broadcast_to(np.asarray(radii, np.float64), (cpts.shape[1],))
  d = (cpts[:, None, :].astype(np.float64) -
       npts[None, :, :].astype(np.float64)) / radii
  dist = np.sqrt((d**2).sum(-1))
  dist[np.asarray(cids)[:, None] != np.asarray(nids)[None, :]] = np.inf
  return dist


def pairs(dist, band=BAND):
  must = dist < 1 - band
  may = dist < 1 + band
  return must, may


def clear_radius(dist, band=5e-4):
  """True if no pair lies near the surface of the ball."""
  return not np.any(np.abs(dist - 1) < band)


def kernel_sum(pts, ids, radii, bw, band=BAND):
  """Density per point and the tolerance due to pairs on the ball's surface."""
  D = pts.shape[1]
  radii = np.broadcast_to(np.asarray(radii, np.float64), (D,))
  bw = np.broadcast_to(np.asarray(bw, np.float64), (D,))
  dist = norm_dist(pts, ids, pts, ids, radii)
  must, may = pairs(dist, band)
  diff = (pts[:, None, :].astype(np.float64) -
          pts[None, :, :].astype(np.float64)) / (radii * bw)
  k = np.exp(-(diff**2) / 2) / np.sqrt(2 * np.pi)
  k = k.prod(-1) / bw.prod()
  lo = (k * must).sum(1)
  hi = (k * may).sum(1)
  return lo, hi - lo, k * must, diff


def density_grad(pts, ids, radii, bw, up):
  """d sum_i up_i * density_i / d pts (pairs fixed)."""
  D = pts.shape[1]
  radii = np.broadcast_to(np.asarray(radii, np.float64), (D,))
  bwv = np.broadcast_to(np.asarray(bw, np.float64), (D,))
  _, _, k, diff = kernel_sum(pts, ids, radii, bwv)
  # d k_ij / d x_i = -k_ij * diff_ij / (r bw)
  g = -k[:, :, None] * diff / (radii * bwv)
  up = np.asarray(up, np.float64)
  return (up[:, None, None] * g).sum(1) - (up[:, None, None] * g).sum(0)


def cell_sets(pts, ids, cells, B, eps=2e-4):
  """Acceptable cell coordinates of every point: list of lists per dimension.

  Cells start at the lower corner of the element's bounding box.
  """
  lo = np.zeros((B, pts.shape[1]))
  for b in range(B):
    e = pts[ids == b]
    if len(e):
      lo[b] = e.min(0)
  cells = np.asarray(cells, np.float64)
  c = (pts.astype(np.float64) - lo[ids]) / cells
  eps = eps + 5e-7 * (np.abs(pts).max() if len(pts) else 0) / cells
  a = np.floor(np.maximum(c - eps, 0)).astype(np.int64)
  z = np.floor(c + eps).astype(np.int64)
  return a, z


def num_cells_sets(pts, ids, cells, B, eps=2e-4):
  lo = np.full((B, pts.shape[1]), np.nan)
  ext = np.zeros((B, pts.shape[1]))
  for b in range(B):
    e = pts[ids == b]
    if len(e):
      ext[b] = e.max(0).astype(np.float64) - e.min(0)
  cells = np.asarray(cells, np.float64)
  q = (ext / cells).max(0)
  eps = eps + 5e-7 * (np.abs(pts).max() if len(pts) else 0) / cells
  a = np.maximum(np.ceil(q - eps), 1).astype(np.int64)
  z = np.maximum(np.ceil(q + eps), 1).astype(np.int64)
  return a, z


def lrelu(x):
  return np.where(x > 0, x, 0.2 * x)


def elu(x):
  return np.where(x > 0, x, np.expm1(np.minimum(x, 0)))


ACT = {'relu': lambda x: np.maximum(x, 0), 'lrelu': lrelu, 'leakyrelu': lrelu,
       'leaky_relu': lrelu, 'elu': elu}


def nb_lists(dist, band=BAND):
  must, _ = pairs(dist, band)
  return [np.flatnonzero(r) for r in must]


def mcconv(w, feats, pin, pout, radius, pdf, nbs):
  """w: dict(weights=[..], bias=[..], final=.., act=..). pdf per input point."""
  feats = np.asarray(feats, np.float64)
  W = [np.asarray(x, np.float64) for x in w['weights']]
  Bv = [np.asarray(x, np.float64) for x in w['bias']]
  F = np.asarray(w['final'], np.float64)
  nm = F.shape[0]
  H = W[-1].shape[2]
  cin = feats.shape[1]
  out = np.zeros((pout.shape[0], nm * F.shape[2]))
  mag = np.zeros_like(out)
  act = ACT[w['act'].lower()]
  for c, nb in enumerate(nbs):
    if len(nb) == 0:
      continue
    x = (pin[nb].astype(np.float64) - pout[c]) / radius
    for m in range(nm):
      h = x
      for l in range(len(W)):
        h = act(h @ W[l][m] + Bv[l][m])
      h = h / pdf[nb][:, None]
      agg = feats[nb].T @ h            # [cin, H]
      aggm = np.abs(feats[nb]).T @ np.abs(h)
      o = agg.reshape(-1) @ F[m]
      out[c, m * F.shape[2]:(m + 1) * F.shape[2]] = o
      mag[c, m * F.shape[2]:(m + 1) * F.shape[2]] = \
          aggm.reshape(-1) @ np.abs(F[m])
  return out, mag


def pointconv(w, feats, pin, pout, pdf, nbs):
  feats = np.asarray(feats, np.float64)
  A = np.asarray(w['axis'], np.float64)
  b = np.asarray(w['bias'], np.float64)
  F = np.asarray(w['weights'], np.float64)
  P = [np.asarray(x, np.float64) for x in w['wpdf']]
  Q = [np.asarray(x, np.float64) for x in w['bpdf']]
  act = ACT[w['act'].lower()]
  out = np.zeros((pout.shape[0], F.shape[1]))
  mag = np.zeros_like(out)
  for c, nb in enumerate(nbs):
    if len(nb) == 0:
      continue
    x = pin[nb].astype(np.float64) - pout[c]
    h = act(x @ A + b)
    q = (pdf[nb] / pdf[nb].max())[:, None]
    q = np.maximum(q @ P[0] + Q[0], 0) @ P[1] + Q[1]
    h = h / q
    out[c] = (feats[nb].T @ h).reshape(-1) @ F
    mag[c] = (np.abs(feats[nb]).T @ np.abs(h)).reshape(-1) @ np.abs(F)
  return out, mag


def _kp_weight(d, sigma, kind):
  if kind == 'linear':
    return np.maximum(1 - d / sigma, 0)
  return np.exp(-(d / (sigma / 3))**2)


def kpconv(w, feats, pin, pout, radius, sigma, nbs):
  """Rigid or deformable kernel point convolution, with regularisation loss."""
  feats = np.asarray(feats, np.float64)
  K = np.asarray(w['kernel'], np.float64)
  F = np.asarray(w['weights'], np.float64)
  out = np.zeros((pout.shape[0], F.shape[1]))
  mag = np.zeros_like(out)
  loss = 0.0
  for c, nb in enumerate(nbs):
    x = (pin[nb].astype(np.float64) - pout[c]) / radius
    kp = K
    if w.get('offsets') is not None:
      O = np.asarray(w['offsets'], np.float64)
      d = np.sqrt(((x[:, None] - K[None])**2).sum(-1))
      h = _kp_weight(d, sigma, w['interp'])
      off = (feats[nb].T @ h).reshape(-1) @ O
      kp = K + off.reshape(K.shape)
    d = np.sqrt(((x[:, None] - kp[None])**2).sum(-1))
    h = _kp_weight(d, sigma, w['interp'])
    out[c] = (feats[nb].T @ h).reshape(-1) @ F
    mag[c] = (np.abs(feats[nb]).T @ np.abs(h)).reshape(-1) @ np.abs(F)
    if w.get('offsets') is not None and len(nb):
      loss += ((d / sigma)**2).min(0).sum()
    kd = np.sqrt(((kp[:, None] - kp[None])**2).sum(-1))
    r = _kp_weight(kd, sigma, w['interp'])
    np.fill_diagonal(r, 0)
    loss += r.sum()
  return out, mag, loss


def format_output(cloud, data, return_sorted, return_padded):
  """List of acceptable outputs."""
  if return_padded:
    return [cloud.pad(data, w) for w in cloud.widths()]
  if return_sorted:
    return [data[cloud.order()]]
  return [data]
