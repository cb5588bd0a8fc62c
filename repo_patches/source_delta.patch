From 4f09f81ed0572e5167e453471f544dbc70876243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 01/48] fix: points on the upper bounding box face get the key
 of the last cell

compute_keys_tf clipped the cell index to num_cells instead of num_cells - 1,
so such a point aliased the first cell of the next row (or of the next batch
element) and disappeared from the fast access data structure.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 5ed51f3..024a6fa 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -43,7 +43,7 @@ def compute_keys_tf(point_cloud: PointCloud, num_cells, cell_size, name=None):
   cell_ind = tf.cast(cell_ind, tf.int32)
   cell_ind = tf.minimum(
       tf.maximum(cell_ind, tf.zeros_like(cell_ind)),
-      num_cells)
+      num_cells - 1)
   cell_multiplier = tf.math.cumprod(num_cells, reverse=True)
   cell_multiplier = tf.concat((cell_multiplier, [1]), axis=0)
   keys = point_cloud._batch_ids * cell_multiplier[0] + \
-- 
2.43.0


From 86d2964004968d922621a9b7ae05a53cb30b5eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 02/48] fix: make the TensorFlow neighbor search find the
 neighbors

find_neighbors_tf raised on every input (cond on the shape of the radii, rank
of the gather_nd indices, concat of scalars). Its cell look-up used the radii
instead of the cell sizes of the grid and could leave the grid, it compared
against the first radius only and ignored max_neighbors. It now follows the
contract of the custom op, for all centers at once: one center at a time took
minutes for the clouds of the unit tests.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 97 +++++++++++++---------------
 1 file changed, 45 insertions(+), 52 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 024a6fa..dc733b5 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -139,13 +139,8 @@ def find_neighbors_tf(grid,
 
   """
   radii = tf.convert_to_tensor(value=radii)
-  radii = tf.cond(
-      tf.logical_or(tf.shape(radii)[0] == [], tf.shape(radii)[0] == 1),
-      lambda: tf.repeat(radii, grid._point_cloud._dimension),
-      lambda: radii)
-  # condition without graph mode
-  # if tf.shape(radii)[0] == [] or tf.shape(radii)[0] == 1:
-  #   radii = tf.repeat(radii, grid._point_cloud._dimension)
+  if radii.shape == [] or radii.shape[0] == 1:
+    radii = tf.repeat(radii, grid._point_cloud._dimension)
   # compute keys of center points in neighbors 2D grid
   center_points = point_cloud_centers._points
   center_batch_ids = point_cloud_centers._batch_ids
@@ -154,60 +149,58 @@ def find_neighbors_tf(grid,
   aabb_min_per_center_point_2D = tf.gather(
       abb_min_per_batch_2D, center_batch_ids)
   center_cell_ind_2D = tf.math.floor(
-      (center_points[:, :2] - aabb_min_per_center_point_2D) / radii[:2])
+      (center_points[:, :2] - aabb_min_per_center_point_2D) /
+      grid._cell_sizes[:2])
   center_cell_ind_2D = tf.cast(center_cell_ind_2D, tf.int32)
   center_cell_ind_2D = tf.minimum(
       tf.maximum(center_cell_ind_2D, tf.zeros_like(center_cell_ind_2D)),
-      grid._num_cells[:2])
+      grid._num_cells[:2] - 1)
   # find neighbors using fast 2D grid datastructure
   neighbor_points = grid._sorted_points
   neighbor_batch_ids = grid._sorted_batch_ids
   data_structure = grid.get_DS()
 
-  neighbors = []
-  center_neigh_ranges = []
-  cur_neigh_range = 0
-  for i in range(tf.shape(center_points)[0]):
-    cur_point = center_points[i]
-    cur_batch_id = center_batch_ids[i]
-    # get cell_ids of adjacent 2D cells (9 in total)
-    cur_cell_id_2D = center_cell_ind_2D[i]
-    adj_cell_ids_2D = tf.stack(
-        (cur_cell_id_2D + [-1, -1],
-         cur_cell_id_2D + [-1, 0],
-         cur_cell_id_2D + [-1, 1],
-         cur_cell_id_2D + [0, 1],
-         cur_cell_id_2D,
-         cur_cell_id_2D + [0, -1],
-         cur_cell_id_2D + [1, -1],
-         cur_cell_id_2D + [1, 0],
-         cur_cell_id_2D + [1, 1]), axis=0)
-    # clip to range between 0 and max num cells
-    adj_cell_ids_2D = tf.minimum(
+  num_centers = tf.shape(center_points)[0]
+  # get cell_ids of adjacent 2D cells (9 in total)
+  adj_cell_ids_2D = tf.expand_dims(center_cell_ind_2D, 1) + \
+      [[-1, -1], [-1, 0], [-1, 1], [0, -1], [0, 0], [0, 1], [1, -1], [1, 0],
+       [1, 1]]
+  # clip to range between 0 and max num cells
+  adj_cell_ids_2D = tf.minimum(
       tf.maximum(adj_cell_ids_2D, tf.zeros_like(adj_cell_ids_2D)),
-      grid._num_cells[:2])
-    # get min and max point ids of the adjacent cells
-    adj_ids = tf.gather_nd(data_structure[cur_batch_id], [adj_cell_ids_2D])
-    adj_ids_start = tf.reduce_min(adj_ids[0, :, 0])
-    adj_ids_end = tf.reduce_max(adj_ids[0, :, 1])
-    # choose points below certain distance and in same batch
-    adj_points = neighbor_points[adj_ids_start:adj_ids_end]
-    adj_batch_ids = neighbor_batch_ids[adj_ids_start:adj_ids_end]
-    distances = tf.linalg.norm(
-        adj_points - tf.reshape(cur_point, [1, -1]), axis=1)
-    close = (distances < radii[0])
-    same_batch = (adj_batch_ids == cur_batch_id)
-    close = tf.math.logical_and(close, same_batch)
-    close_ids = tf.boolean_mask(tf.range(adj_ids_start, adj_ids_end), close)
-
-    cur_neighbors = tf.stack(
-        (close_ids, tf.ones_like(close_ids) * i), axis=1)
-    neighbors.append(cur_neighbors)
-    cur_neigh_range = cur_neigh_range + tf.shape(cur_neighbors)[0]
-    center_neigh_ranges.append(cur_neigh_range)
-
-  neighbors = tf.concat(neighbors, axis=0)
-  center_neigh_ranges = tf.concat(center_neigh_ranges, axis=0)
+      grid._num_cells[:2] - 1)
+  # get min and max point ids of the adjacent cells, skipping empty cells
+  adj_batch_ids = tf.tile(tf.reshape(center_batch_ids, [-1, 1, 1]), [1, 9, 1])
+  adj_ids = tf.gather_nd(
+      data_structure, tf.concat((adj_batch_ids, adj_cell_ids_2D), axis=2))
+  adj_ids_end = tf.reduce_max(adj_ids[:, :, 1], axis=1)
+  adj_ids_start = tf.reduce_min(
+      tf.where(adj_ids[:, :, 0] < adj_ids[:, :, 1], adj_ids[:, :, 0],
+               tf.expand_dims(adj_ids_end, 1)), axis=1)
+  # list the points in between for each center
+  num_adj = adj_ids_end - adj_ids_start
+  center_ids = tf.repeat(tf.range(num_centers), num_adj)
+  neighbor_ids = tf.range(tf.reduce_sum(num_adj)) + tf.repeat(
+      adj_ids_start - tf.cumsum(num_adj, exclusive=True), num_adj)
+  # choose points below certain distance and in same batch
+  distances = tf.linalg.norm(
+      (tf.gather(neighbor_points, neighbor_ids) -
+       tf.gather(center_points, center_ids)) / radii, axis=1)
+  close = (distances < 1.0)
+  same_batch = (tf.gather(neighbor_batch_ids, neighbor_ids) ==
+                tf.gather(center_batch_ids, center_ids))
+  close = tf.math.logical_and(close, same_batch)
+  neighbors = tf.boolean_mask(
+      tf.stack((neighbor_ids, center_ids), axis=1), close)
+  num_neighbors = tf.math.unsorted_segment_sum(
+      tf.ones_like(neighbors[:, 1]), neighbors[:, 1], num_centers)
+  if max_neighbors > 0:
+    # keep at most max_neighbors per center
+    rank = tf.range(tf.shape(neighbors)[0]) - tf.gather(
+        tf.cumsum(num_neighbors, exclusive=True), neighbors[:, 1])
+    neighbors = tf.boolean_mask(neighbors, rank < max_neighbors)
+    num_neighbors = tf.minimum(num_neighbors, max_neighbors)
+  center_neigh_ranges = tf.cumsum(num_neighbors)
 
   return center_neigh_ranges, neighbors
 tf.no_gradient('FindNeighborsTF')
-- 
2.43.0


From 44934867c50274aa4fa1902bab713b77f1271437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 03/48] fix: poisson_disk_sampling and cell_average_sampling
 use the mode they name

The two functions passed each other's sample mode, handed the point cloud
instead of its dimension to cast_to_num_dims, and cell_average_sampling failed
when only a grid was given.
---
 pylib/pc/sampling.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pylib/pc/sampling.py b/pylib/pc/sampling.py
index b10cff4..18090c1 100755
--- a/pylib/pc/sampling.py
+++ b/pylib/pc/sampling.py
@@ -58,13 +58,13 @@ def poisson_disk_sampling(point_cloud,
         "Missing Argument! Either radius or neighborhood must be given!")
   if neighborhood is None:
     # compute neighborhood
-    radii = cast_to_num_dims(radius, point_cloud)
+    radii = cast_to_num_dims(radius, point_cloud._dimension)
     grid = Grid(point_cloud, radii)
     neighborhood = Neighborhood(grid, radii)
 
   #Compute the sampling.
   sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, 1)
+      sampling(neighborhood, sample_modes['poisson'])
 
   sampled_point_cloud = PointCloud(
       points=sampled_points, batch_ids=sampled_batch_ids,
@@ -104,14 +104,14 @@ def cell_average_sampling(point_cloud,
         "Missing Argument! Either cell_sizes or grid must be given!")
   if grid is None:
     # compute grid
-    cell_sizes = cast_to_num_dims(cell_sizes, point_cloud)
+    cell_sizes = cast_to_num_dims(cell_sizes, point_cloud._dimension)
     grid = Grid(point_cloud, cell_sizes)
 
-  neighborhood = Neighborhood(grid, cell_sizes)
+  neighborhood = Neighborhood(grid, grid._cell_sizes)
 
   #Compute the sampling.
   sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, 0)
+      sampling(neighborhood, sample_modes['average'])
 
   sampled_point_cloud = PointCloud(
       points=sampled_points, batch_ids=sampled_batch_ids,
-- 
2.43.0


From a5ca5a66421f70287b49b9342958903440b5d404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 04/48] fix: density_estimation calls compute_pdf with the
 signature it has

compute_pdf takes a neighborhood, a bandwidth and a mode; the six argument call
raised a TypeError for every mode but no_pdf.
---
 pylib/pc/Neighborhood.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index 8819547..a3f8b9d 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -134,17 +134,8 @@ def density_estimation(point_cloud,
     pdf = tf.ones_like(point_cloud._points[:, 0], dtype=tf.float32)
   else:
     grid = Grid(point_cloud, scaling)
-    pdf_neighbors, nb_ranges = \
-        compute_neighborhoods(grid,
-                              scaling,
-                              return_ranges=True,
-                              return_sorted_ids=True)
-    pdf_sorted = compute_pdf(grid,
-                             pdf_neighbors,
-                             nb_ranges,
-                             bandwidth,
-                             scaling,
-                             mode.value)
+    pdf_neighbors = Neighborhood(grid, scaling)
+    pdf_sorted = compute_pdf(pdf_neighbors, bandwidth, mode.value)
     unsorted_indices = tf.math.invert_permutation(grid._sorted_indices)
     pdf = tf.gather(pdf_sorted, unsorted_indices)
   if normalize:
-- 
2.43.0


From e1cf35d18d5da1c288941e3835b7216f22df1ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 05/48] fix: a scalar radius of any dtype gives a float radius
 per dimension

The repeated value was the argument and not its float32 conversion, so integer
radii and float64 numpy scalars failed in the neighbor search.
---
 pylib/pc/Neighborhood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index a3f8b9d..de59dcc 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -215,7 +215,7 @@ class Neighborhood:
     radii = tf.reshape(tf.cast(tf.convert_to_tensor(value=radius),
                                tf.float32), [-1])
     if radii.shape[0] == 1:
-      radii = tf.repeat(radius, grid._point_cloud._dimension)
+      radii = tf.repeat(radii, grid._point_cloud._dimension)
     #Save the attributes.
     if point_cloud_sample is None:
       self._equal_samples = True
-- 
2.43.0


From f216f75c491d045844d07445b9df3917cec3aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 06/48] fix: Neighborhood.compute_pdf publishes only a complete
 density

The unnormalized density was stored in the cache before the normalization. If
the normalization failed, or another thread called get_pdf meanwhile, the
unnormalized values were returned as the cached density from then on.
---
 pylib/pc/Neighborhood.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index de59dcc..d183d60 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -266,7 +266,7 @@ class Neighborhood:
         bandwidth, self._point_cloud_sampled._dimension)
 
     if mode == KDEMode.no_pdf:
-      self._pdf = tf.ones_like(
+      pdf = tf.ones_like(
           self._neighbors[:, 0], dtype=tf.float32)
     else:
       if self._equal_samples:
@@ -275,13 +275,15 @@ class Neighborhood:
         pdf_neighbors = Neighborhood(self._grid, self._radii, None)
       _pdf = compute_pdf(
             pdf_neighbors, bandwidth, mode.value)
-      self._pdf = tf.gather(_pdf, self._neighbors[:, 0])
+      pdf = tf.gather(_pdf, self._neighbors[:, 0])
     if normalize:
       norm_factors = tf.math.unsorted_segment_sum(
-          tf.ones_like(self._pdf),
+          tf.ones_like(pdf),
           self._neighbors[:, 1],
           self._point_cloud_sampled._points.shape[0])
-      self._pdf = self._pdf / tf.gather(norm_factors, self._neighbors[:, 1])
+      pdf = pdf / tf.gather(norm_factors, self._neighbors[:, 1])
+    # publish only the complete result, other callers may use the cached value
+    self._pdf = pdf
 
   def get_pdf(self, **kwargs):
     """ Method which returns the pdfs of the neighborhoods.
-- 
2.43.0


From 607eafdf25d25f2202b6b7dbb6d5b471b107ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 07/48] fix: PointCloud.get_sizes counts empty batch elements
 and caches atomically

Empty elements were missing from the sizes, which made padded access and
set_batch_shape fail. The intermediate, unsorted counts were visible in the
cache to other threads, and stayed there when a later op failed.
---
 pylib/pc/PointCloud.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index e08cf27..49fdb65 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -196,12 +196,12 @@ class PointCloud:
 
     """
     if self._sizes is None:
-      _ids, _, self._sizes = tf.unique_with_counts(
-          self._batch_ids)
-      _ids_sorted = tf.argsort(_ids)
-      self._sizes = tf.gather(self._sizes, _ids_sorted)
+      sizes = tf.math.unsorted_segment_sum(
+          tf.ones_like(self._batch_ids), self._batch_ids, self._batch_size)
       if self._batch_shape is not None:
-        self._sizes = tf.reshape(self._sizes, self._batch_shape)
+        sizes = tf.reshape(sizes, self._batch_shape)
+      # publish only the complete result, other callers may use the cache
+      self._sizes = sizes
     return self._sizes
 
   def get_unflatten(self, max_num_points=None, name=None):
-- 
2.43.0


From 9e93b78e0decc00665595d31a8c5f05c47d93653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 08/48] fix: get_unflatten honours max_num_points on every call

The method built for the first call was cached with its max_num_points, so
later calls (and the padded output of the layers) silently used the width of
the first one; clouds built from padded input ignored the argument.
---
 pylib/pc/PointCloud.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 49fdb65..0de7f90 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -225,8 +225,8 @@ class PointCloud:
       ValueError: When trying to unflatten unsorted points.
 
     """
-    if self._unflatten is None:
-      self._unflatten = lambda data: unflatten_2d_to_batch(
+    if max_num_points is not None or self._unflatten is None:
+      return lambda data: unflatten_2d_to_batch(
           data=tf.gather(data, self._sorted_indices_batch),
           sizes=self.get_sizes(),
           max_rows=max_num_points)
-- 
2.43.0


From cba4d578efca8dbf07d68b0fd0eb5c363063a0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 09/48] fix: PointCloud.get_points rejects the id one past the
 end

id == batch_size returned an empty cloud instead of raising IndexError.
---
 pylib/pc/PointCloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 0de7f90..6a1d78e 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -176,7 +176,7 @@ class PointCloud:
         for slice_id in id:
           slice = slice[slice_id]
         id = slice
-      if id > self._batch_size:
+      if id >= self._batch_size:
         raise IndexError('batch index out of range')
       return self._points[self._batch_ids == id]
     else:
-- 
2.43.0


From 981180233ce7b61669f9d2d387541ce1d9ea721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 10/48] fix: set_batch_shape updates everything that depends on
 the batch shape

The padding method of clouds built from padded input, the bounding box and,
when resetting the shape with None, the sizes and the element lookup kept the
old shape; the fields were assigned one by one, so that a failing op left the
cloud with a mixture of the two shapes. Clouds built from flat points had no
element lookup at all before a shape was set.
---
 pylib/pc/PointCloud.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 6a1d78e..33b3d85 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -147,6 +147,7 @@ class PointCloud:
       self._batch_ids = tf.repeat(tf.range(0, self._batch_size), self._sizes)
     if self._batch_size is None:
       self._batch_size = tf.reduce_max(self._batch_ids) + 1
+    self._get_segment_id = tf.range(0, self._batch_size)
     self._points = points
 
   def get_points(self, id=None, max_num_points=None, name=None):
@@ -272,10 +273,14 @@ class PointCloud:
       #   raise ValueError(
       #       f'Incompatible batch size. Must be {self._batch_size} \
       #        but is {tf.reduce_prod(batch_shape)}')
-      self._batch_shape = batch_shape
-      self._get_segment_id = tf.reshape(
-          tf.range(0, self._batch_size), self._batch_shape)
-      if self._sizes is not None:
-        self._sizes = tf.reshape(self._sizes, self._batch_shape)
-    else:
-      self._batch_shape = None
+    id_shape = [-1] if batch_shape is None else batch_shape
+    segment_ids = tf.reshape(tf.range(0, self._batch_size), id_shape)
+    sizes = self._sizes
+    if sizes is not None:
+      sizes = tf.reshape(sizes, id_shape)
+    # change all dependent variables together, nothing may fail in between
+    self._batch_shape = batch_shape
+    self._get_segment_id = segment_ids
+    self._sizes = sizes
+    self._unflatten = None
+    self._aabb = None
-- 
2.43.0


From a613e15b7085d896c80cd912b443697de8bb914b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 11/48] fix: flat points accept sizes with more than one batch
 dimension

As documented, sizes has shape [A1, ..., An]; tf.repeat only takes 1D repeats.
---
 pylib/pc/PointCloud.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 33b3d85..2e1887c 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -144,7 +144,8 @@ class PointCloud:
     if self._batch_ids is None:
       if self._batch_size is None:
         self._batch_size = tf.reduce_prod(self._sizes.shape)
-      self._batch_ids = tf.repeat(tf.range(0, self._batch_size), self._sizes)
+      self._batch_ids = tf.repeat(tf.range(0, self._batch_size),
+                                  tf.reshape(self._sizes, [-1]))
     if self._batch_size is None:
       self._batch_size = tf.reduce_max(self._batch_ids) + 1
     self._get_segment_id = tf.range(0, self._batch_size)
-- 
2.43.0


From 5c9324672d6bcaf20789e61d150e77d5ca496c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 12/48] fix: PointHierarchy accessors and cell sizes work as
 documented

get_points dropped max_num_points, get_neighborhood(transposed=True) called a
method that does not exist, set_batch_shape left the shape of the hierarchy
itself unchanged, scalar cell sizes failed and a short list of cell sizes was
completed with its first instead of its last value.
---
 pylib/pc/PointHierarchy.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index 81e574e..c6b31f3 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -57,6 +57,9 @@ class PointHierarchy:
       cur_cell_sizes  = tf.convert_to_tensor(
         value=cur_cell_sizes, dtype=tf.float32)
 
+      if cur_cell_sizes.shape == []:
+        cur_cell_sizes = tf.reshape(cur_cell_sizes, [1])
+
       # Check if the cell size is defined for all the dimensions.
       # If not, the last cell size value is tiled until all the dimensions
       # have a value.
@@ -65,7 +68,7 @@ class PointHierarchy:
           cur_num_dims < self._dimension,
           lambda: tf.concat((cur_cell_sizes,
                              tf.tile(tf.gather(cur_cell_sizes,
-                                               [tf.rank(cur_cell_sizes) - 1]),
+                                               [cur_num_dims - 1]),
                                      [self._dimension - cur_num_dims])),
                             axis=0),
           lambda: cur_cell_sizes)
@@ -118,7 +121,7 @@ class PointHierarchy:
     """
     points = []
     for point_cloud in self._point_clouds:
-      points.append(point_cloud.get_points(batch_id))
+      points.append(point_cloud.get_points(batch_id, max_num_points))
     return points
 
   def get_sizes(self, name=None):
@@ -155,6 +158,7 @@ class PointHierarchy:
     """
     for point_cloud in self._point_clouds:
       point_cloud.set_batch_shape(batch_shape)
+    self._batch_shape = self._point_clouds[0]._batch_shape
 
   def get_neighborhood(self, i=None, transposed=False):
     """ Returns the neighborhood between level `i` and `i+1` of the hierarchy.
@@ -172,7 +176,7 @@ class PointHierarchy:
     """
     if i is None:
       if transposed:
-        return [nb.transposed() for nb in self._neighborhoods]
+        return [nb.transpose() for nb in self._neighborhoods]
       else:
         return self._neighborhoods
     else:
-- 
2.43.0


From 21c30a7b4873931712f6ccf52472708c6dd20ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 13/48] fix: local pooling accepts a scalar radius

pooling_radius is documented as a float or a float Tensor of shape [D].
---
 pylib/pc/layers/Pooling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/layers/Pooling.py b/pylib/pc/layers/Pooling.py
index 77fcb8e..5fc4d87 100644
--- a/pylib/pc/layers/Pooling.py
+++ b/pylib/pc/layers/Pooling.py
@@ -144,7 +144,7 @@ class _LocalPointPooling:
     features = _flatten_features(features, point_cloud_in)
     pooling_radius = tf.convert_to_tensor(
         value=pooling_radius, dtype=tf.float32)
-    if pooling_radius.shape[0] == 1:
+    if pooling_radius.shape == [] or pooling_radius.shape[0] == 1:
       pooling_radius = tf.repeat(pooling_radius, point_cloud_in._dimension)
 
     # Compute the grid.
-- 
2.43.0


From ddd55df7f51c372bf858f7fe69f4a63989e39d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 14/48] fix: network blocks convolve around the points they
 were given

Without an explicit neighborhood the blocks used one whose centers are the
cell sorted points of the grid, while the layers index the centers in the order
of the point cloud, so every point received the features of another one.
---
 pylib/pc/layers/network_blocks.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index 87c731e..e933f4b 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -129,7 +129,7 @@ class PointResNet(tf.Module):
       #Compute the grid.
       grid = Grid(point_cloud, radii_tensor)
       #Compute the neighborhood key.
-      neighborhood = Neighborhood(grid, radii_tensor)
+      neighborhood = Neighborhood(grid, radii_tensor, point_cloud)
     for i in range(self._num_blocks):
       skip = features
       # first residual convolution
@@ -266,7 +266,7 @@ class PointResNetBottleNeck(tf.Module):
       #Compute the grid.
       grid = Grid(point_cloud, radii_tensor)
       #Compute the neighborhood key.
-      neighborhood = Neighborhood(grid, radii_tensor)
+      neighborhood = Neighborhood(grid, radii_tensor, point_cloud)
     for i in range(self._num_blocks):
       skip = features
       # downsampling
@@ -417,7 +417,8 @@ class PointResNetSpatialBottleNeck(tf.Module):
       # intra-downsampled
       grid = Grid(point_cloud_downsampled, radii_tensor[1])
       neighborhoods.append(Neighborhood(grid,
-                                        radii_tensor[1]))
+                                        radii_tensor[1],
+                                        point_cloud_downsampled))
       # upsampling
       if conv_radii[0] == conv_radii[2]:
         neighborhoods.append(neighborhoods[0].transpose())
-- 
2.43.0


From 97d62e5de763b2d2b4ad6cc0caa821d8102cbd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 15/48] fix: PointResNetBottleNeck can be constructed

Conv1x1 always has a bias and takes no use_bias argument.
---
 pylib/pc/layers/network_blocks.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index e933f4b..2ba7da5 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -222,12 +222,10 @@ class PointResNetBottleNeck(tf.Module):
         self._projection_layers.append(_identity)
       # up- and downwampling in feature domain
       self._downsampling_layers.append(Conv1x1(num_features,
-                                               bottle_neck_num_features,
-                                               use_bias=True))
+                                               bottle_neck_num_features))
       self._batch_norm_layers.append(tf.keras.layers.BatchNormalization())
       self._upsampling_layers.append(Conv1x1(bottle_neck_num_features,
-                                             num_features,
-                                             use_bias=True))
+                                             num_features))
       self._batch_norm_layers.append(tf.keras.layers.BatchNormalization())
 
   def __call__(self,
-- 
2.43.0


From 3d7a5d6453dacbd6df3c5119196b181626f2fdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 16/48] fix: network blocks can be built from KPConv layers

The radius argument of KPConv is called conv_radius; all three layer types take
features, clouds and radius in the same order, so pass them by position.
---
 pylib/pc/layers/network_blocks.py | 48 +++++++++++++++----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index 2ba7da5..d99f699 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -136,20 +136,20 @@ class PointResNet(tf.Module):
       features = self._batch_norm_layers[2 * i](features,
                                                 training=training)
       features = self._activation(features)
-      features = self._conv_layers[2 * i](features=features,
-                                          point_cloud_in=point_cloud,
-                                          point_cloud_out=point_cloud,
-                                          radius=radius,
+      features = self._conv_layers[2 * i](features,
+                                          point_cloud,
+                                          point_cloud,
+                                          radius,
                                           neighborhood=neighborhood,
                                           **kwargs)
       # second residual convolution
       features = self._batch_norm_layers[2 * i + 1](features,
                                                     training=training)
       features = self._activation(features)
-      features = self._conv_layers[2 * i + 1](features=features,
-                                              point_cloud_in=point_cloud,
-                                              point_cloud_out=point_cloud,
-                                              radius=radius,
+      features = self._conv_layers[2 * i + 1](features,
+                                              point_cloud,
+                                              point_cloud,
+                                              radius,
                                               neighborhood=neighborhood,
                                               **kwargs)
       # skip connection
@@ -276,10 +276,10 @@ class PointResNetBottleNeck(tf.Module):
       features = self._batch_norm_layers[3 * i + 1](features,
                                                     training=training)
       features = self._activation(features)
-      features = self._conv_layers[i](features=features,
-                                      point_cloud_in=point_cloud,
-                                      point_cloud_out=point_cloud,
-                                      radius=radius,
+      features = self._conv_layers[i](features,
+                                      point_cloud,
+                                      point_cloud,
+                                      radius,
                                       neighborhood=neighborhood,
                                       **kwargs)
       # upsampling
@@ -431,30 +431,30 @@ class PointResNetSpatialBottleNeck(tf.Module):
                                                 training=training)
       features = self._activation(features)
       features = self._downsampling_layers[i](
-          features=features,
-          point_cloud_in=point_cloud,
-          point_cloud_out=point_cloud_downsampled,
-          radius=radii[0],
+          features,
+          point_cloud,
+          point_cloud_downsampled,
+          radii[0],
           neighborhood=neighborhoods[0],
           **kwargs)
       features = self._batch_norm_layers[3 * i + 1](features,
                                                     training=training)
       features = self._activation(features)
       features = self._conv_layers[i](
-        features=features,
-        point_cloud_in=point_cloud_downsampled,
-        point_cloud_out=point_cloud_downsampled,
-        radius=radii[1],
+        features,
+        point_cloud_downsampled,
+        point_cloud_downsampled,
+        radii[1],
         neighborhood=neighborhoods[1],
         **kwargs)
       features = self._batch_norm_layers[3 * i + 2](features,
                                                     training=training)
       features = self._activation(features)
       features = self._upsampling_layers[i](
-          features=features,
-          point_cloud_in=point_cloud_downsampled,
-          point_cloud_out=point_cloud,
-          radius=radii[2],
+          features,
+          point_cloud_downsampled,
+          point_cloud,
+          radii[2],
           neighborhood=neighborhoods[2],
           **kwargs)
       features = features + self._projection_layers[i](skip, point_cloud)
-- 
2.43.0


From d360ba2f11d57bada109d9c5105cce4263c5767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 17/48] fix: spherical kernels have 13 and 15 distinct points
 in the unit sphere

The icosahedron raised (tf.sqrt of an int) and was not scaled to the sphere, and
the hexagon listed one corner twice instead of its sixth corner.
---
 pylib/pc/layers/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pylib/pc/layers/utils.py b/pylib/pc/layers/utils.py
index 7c25139..4230fc5 100644
--- a/pylib/pc/layers/utils.py
+++ b/pylib/pc/layers/utils.py
@@ -94,7 +94,7 @@ def _hexagon(scale, z_shift):
             [0.5, phi, 0],
             [0.5, -phi, 0],
             [-0.5, phi, 0],
-            [0.5, -phi, 0]]
+            [-0.5, -phi, 0]]
   points = np.array(points) * scale
   points[:, 2] += z_shift
   return points
@@ -187,7 +187,7 @@ def spherical_kernel_points(num_points, rotate=True, name=None):
                           [0, 0, -1]], dtype=tf.float32)
   elif num_points == 13:
     # Icosahedron
-    phi = (1 + tf.sqrt(5)) / 2
+    phi = (1 + np.sqrt(5)) / 2
     points = tf.Variable([[0, 0, 0],
                           [0, 1, phi],
                           [0, 1, -phi],
@@ -200,7 +200,8 @@ def spherical_kernel_points(num_points, rotate=True, name=None):
                           [phi, 0, 1],
                           [-phi, 0, 1],
                           [phi, 0, -1],
-                          [-phi, 0, -1]], dtype=tf.float32)
+                          [-phi, 0, -1]] / np.sqrt(1 + phi**2),
+                         dtype=tf.float32)
   elif num_points == 15:
     hex1 = _hexagon(0.5, np.sqrt(3) / 2)
     hex2 = _hexagon(-0.5, np.sqrt(3) / 2)[:,[1, 0, 2]]  # rotated 90 deg in xy
-- 
2.43.0


From 1134e22291536b3cdfd5ed223d5e1fce49fa870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 18/48] fix: point files need not end with a newline

The last character of the last number was cut off when the file ended without
a newline, silently changing the value.
---
 pylib/io/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index cac6bde..1181140 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -49,7 +49,7 @@ def load_points_from_file_to_tensor(filename,
     if tf.io.gfile.exists(filename):
       with tf.io.gfile.GFile(filename, 'r') as in_file:
         for line in in_file:
-          line_elements = line[:-1].split(delimiter)
+          line_elements = line.rstrip('\r\n').split(delimiter)
           points.append(line_elements[0:dimension])
           if len(line_elements) > 3:
             features.append(line_elements[dimension:])
@@ -98,7 +98,7 @@ def load_points_from_file_to_numpy(filename,
         i = 0
         for line in in_file:
           if max_num_points is not None and i < max_num_points:
-            line_elements = line[:-1].split(delimiter)
+            line_elements = line.rstrip('\r\n').split(delimiter)
             points.append(line_elements[0:dimension])
             if len(line_elements) > 3:
               features.append(line_elements[dimension:])
-- 
2.43.0


From eb15ad4fda33f12eb8cb5725b4064b68767f5902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 19/48] fix: load_points_from_file_to_numpy reads the file by
 default

Without max_num_points no line was read at all.
---
 pylib/io/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index 1181140..888b909 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -97,7 +97,7 @@ def load_points_from_file_to_numpy(filename,
       with tf.io.gfile.GFile(filename, 'r') as in_file:
         i = 0
         for line in in_file:
-          if max_num_points is not None and i < max_num_points:
+          if max_num_points is None or i < max_num_points:
             line_elements = line.rstrip('\r\n').split(delimiter)
             points.append(line_elements[0:dimension])
             if len(line_elements) > 3:
-- 
2.43.0


From 862f915cca6d8b1a37e5112b3db99003dfb0f713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 20/48] fix: point loaders separate coordinates and features at
 the given dimension

Features of 2D points with three columns were dropped, files without features
could not be loaded as tensors, and load_batch_of_points ignored
point_dimension.
---
 pylib/io/points.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index 888b909..a9a42bd 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -51,11 +51,10 @@ def load_points_from_file_to_tensor(filename,
         for line in in_file:
           line_elements = line.rstrip('\r\n').split(delimiter)
           points.append(line_elements[0:dimension])
-          if len(line_elements) > 3:
-            features.append(line_elements[dimension:])
+          features.append(line_elements[dimension:])
 
-      points = tf.convert_to_tensor(value=points)
-      features = tf.convert_to_tensor(value=features)
+      points = tf.convert_to_tensor(value=points, dtype=tf.string)
+      features = tf.convert_to_tensor(value=features, dtype=tf.string)
       points = tf.strings.to_number(input=points, out_type=dtype)
       features = tf.strings.to_number(input=features, out_type=dtype)
       return points, features
@@ -100,8 +99,7 @@ def load_points_from_file_to_numpy(filename,
           if max_num_points is None or i < max_num_points:
             line_elements = line.rstrip('\r\n').split(delimiter)
             points.append(line_elements[0:dimension])
-            if len(line_elements) > 3:
-              features.append(line_elements[dimension:])
+            features.append(line_elements[dimension:])
           else:
             break
           i += 1
@@ -148,7 +146,8 @@ def load_batch_of_points(filenames,
   sizes = []
   for filename in filenames:
     curr_points, curr_features = load_points_from_file_to_tensor(
-        filename=filename, delimiter=delimiter, dtype=dtype)
+        filename=filename, delimiter=delimiter, dimension=point_dimension,
+        dtype=dtype)
     points.append(curr_points)
     features.append(curr_features)
     sizes.append(len(curr_points))
-- 
2.43.0


From dbd64ad9644b73aececda4470fea55a23a150cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 21/48] fix: an interrupted run leaves no broken dataset cache

The HDF5 cache was written in place: a run that was stopped meanwhile left a
file which every later run failed to open. modelnet40_small.py did not create
the cache directory, so it lost the loaded data at the end of the first run.
---
 modelnet40.py       | 10 ++++++++--
 modelnet40_small.py | 13 +++++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/modelnet40.py b/modelnet40.py
index bd51245..e1bd822 100644
--- a/modelnet40.py
+++ b/modelnet40.py
@@ -89,9 +89,12 @@ else:
     if quick_test and i > 100:
         break
 
-  h5File = h5py.File(hdf5_tmp_dir + "/train_data.hdf5", "w")
+  # write to a temporary file, an interrupted run must not leave a broken cache
+  h5File = h5py.File(hdf5_tmp_dir + "/train_data.hdf5.tmp", "w")
   h5File.create_dataset("train_data", data=train_data_points)
   h5File.close()
+  os.replace(hdf5_tmp_dir + "/train_data.hdf5.tmp",
+             hdf5_tmp_dir + "/train_data.hdf5")
 
 if os.path.exists(hdf5_tmp_dir + "/test_data.hdf5"):
   h5File = h5py.File(hdf5_tmp_dir + "/test_data.hdf5", "r")
@@ -112,9 +115,12 @@ else:
       print(f'{i}/{len(test_set)}')
     if quick_test and i > 100:
       break
-  h5File = h5py.File(hdf5_tmp_dir + "/test_data.hdf5", "w")
+  # write to a temporary file, an interrupted run must not leave a broken cache
+  h5File = h5py.File(hdf5_tmp_dir + "/test_data.hdf5.tmp", "w")
   h5File.create_dataset("test_data", data=test_data_points)
   h5File.close()
+  os.replace(hdf5_tmp_dir + "/test_data.hdf5.tmp",
+             hdf5_tmp_dir + "/test_data.hdf5")
 
 
 #-----------------------------------------------
diff --git a/modelnet40_small.py b/modelnet40_small.py
index a11b335..c3007ea 100644
--- a/modelnet40_small.py
+++ b/modelnet40_small.py
@@ -67,6 +67,9 @@ with open(data_dir + f'modelnet{num_classes}_test.txt') as inFile:
     test_labels.append(category_names.index(category))
 
 num_classes = len(category_names)
+if not os.path.exists(hdf5_tmp_dir):
+  os.mkdir(hdf5_tmp_dir)
+
 print(f'### loading modelnet{num_classes} train ###')
 if os.path.exists(hdf5_tmp_dir + "/train_data_small.hdf5"):
   h5File = h5py.File(hdf5_tmp_dir + "/train_data_small.hdf5", "r")
@@ -87,9 +90,12 @@ else:
     if quick_test and i > 100:
       break
 
-  h5File = h5py.File(hdf5_tmp_dir + "/train_data_small.hdf5", "w")
+  # write to a temporary file, an interrupted run must not leave a broken cache
+  h5File = h5py.File(hdf5_tmp_dir + "/train_data_small.hdf5.tmp", "w")
   h5File.create_dataset("train_data", data=train_data_points)
   h5File.close()
+  os.replace(hdf5_tmp_dir + "/train_data_small.hdf5.tmp",
+             hdf5_tmp_dir + "/train_data_small.hdf5")
 
 print(f'### loading modelnet{num_classes} test ###')
 if os.path.exists(hdf5_tmp_dir + "/test_data_small.hdf5"):
@@ -110,9 +116,12 @@ else:
     if quick_test and i > 100:
       break
 
-  h5File = h5py.File(hdf5_tmp_dir + "/test_data_small.hdf5", "w")
+  # write to a temporary file, an interrupted run must not leave a broken cache
+  h5File = h5py.File(hdf5_tmp_dir + "/test_data_small.hdf5.tmp", "w")
   h5File.create_dataset("test_data", data=test_data_points)
   h5File.close()
+  os.replace(hdf5_tmp_dir + "/test_data_small.hdf5.tmp",
+             hdf5_tmp_dir + "/test_data_small.hdf5")
 
 
 #-----------------------------------------------
-- 
2.43.0


From 6a69fbc4b3de5dd915776b3af61f387c135d9d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 22/48] fix: PointCloud.get_points rejects a negative id

---
 pylib/pc/PointCloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 2e1887c..54c67a5 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -178,7 +178,7 @@ class PointCloud:
         for slice_id in id:
           slice = slice[slice_id]
         id = slice
-      if id >= self._batch_size:
+      if id < 0 or id >= self._batch_size:
         raise IndexError('batch index out of range')
       return self._points[self._batch_ids == id]
     else:
-- 
2.43.0


From d6c6907e41c3eeb5c3374ee3ff879db2c0852859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 23/48] fix: KPConv keeps values for the regularization loss of
 complete calls only

The influence distance and the output size of a call were stored on the layer
while the call was running, so a failed or concurrent call changed the result
of other calls.
---
 pylib/pc/layers/KPConv.py | 77 ++++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 30 deletions(-)

diff --git a/pylib/pc/layers/KPConv.py b/pylib/pc/layers/KPConv.py
index 9e71127..7d7eb72 100644
--- a/pylib/pc/layers/KPConv.py
+++ b/pylib/pc/layers/KPConv.py
@@ -150,7 +150,7 @@ class KPConv(tf.Module):
       def _zero(*args, **kwargs):
         """ Replaces `_get_offsets` with zeros for rigid KPConv.
         """
-        return tf.constant(0.0, dtype=tf.float32)
+        return tf.constant(0.0, dtype=tf.float32), None
       self._get_offsets = _zero
 
     self._weights = \
@@ -165,7 +165,9 @@ class KPConv(tf.Module):
   def _kp_conv(self,
                kernel_input,
                neighborhood,
-               features):
+               features,
+               sigma,
+               num_output_points):
     """ Method to compute a kernel point convolution using linear interpolation
     of the kernel weights.
 
@@ -182,19 +184,23 @@ class KPConv(tf.Module):
         kernel, i.e. the distances between neighbor pairs.
       neighborhood: A `Neighborhood` instance.
       features: A `float` `Tensor` of shape `[N1, C1]`, the input features.
+      sigma: A `float`, the normalized influence distance of the kernel points.
+      num_output_points: An `int`, `N2`.
 
     Returns:
       A `float` `Tensor` of shape `[N2, C2]`, the output features.
+      A `float` `Tensor` of shape `[M, K]`, the distances to the kernel points.
+      A `float` `Tensor` of shape `[N2, K, D]`, the kernel offsets, `None` for
+        rigid kernels.
 
     """
-    # neighbor pairs ids
-    neighbors = neighborhood._original_neigh_ids
     # kernel weights from distances, shape [M, K]
-    kernel_offsets = self._get_offsets(kernel_input, neighborhood, features)
+    kernel_offsets, center_offsets = self._get_offsets(
+        kernel_input, neighborhood, features, sigma, num_output_points)
     points_diff = tf.expand_dims(kernel_input, 1) - \
         (tf.expand_dims(self._kernel_points, 0) + kernel_offsets)
     points_dist = tf.linalg.norm(points_diff, axis=2)
-    kernel_weights = self._weighting(points_dist, self._sigma)
+    kernel_weights = self._weighting(points_dist, sigma)
 
     # Pad zeros to fullfil requirements of the basis_proj custom op,
     # 8, 16, 32, or 64 basis are allowed.
@@ -211,10 +217,6 @@ class KPConv(tf.Module):
         kernel_weights = tf.pad(kernel_weights,
                                 [[0, 0], [0, 64 - self._num_kernel_points]])
 
-    # save values for regularization loss computation
-    self._cur_point_dist = points_dist
-    self._cur_neighbors = neighbors
-
     # Compute the projection to the samples.
     weighted_features = basis_proj(
         kernel_weights,
@@ -229,7 +231,7 @@ class KPConv(tf.Module):
                    [-1, self._num_features_in * self._num_kernel_points]),
         self._weights)
 
-    return convolution_result
+    return convolution_result, points_dist, center_offsets
 
   def __call__(self,
                features,
@@ -278,13 +280,13 @@ class KPConv(tf.Module):
     features = tf.cast(tf.convert_to_tensor(value=features),
                        dtype=tf.float32)
     features = _flatten_features(features, point_cloud_in)
-    self._num_output_points = point_cloud_out._points.shape[0]
+    num_output_points = point_cloud_out._points.shape[0]
 
     if kernel_influence_dist is None:
       # normalized
-      self._sigma = tf.constant(1.0)
+      sigma = tf.constant(1.0)
     else:
-      self._sigma = tf.convert_to_tensor(
+      sigma = tf.convert_to_tensor(
         value=kernel_influence_dist / conv_radius, dtype=tf.float32)
     #Create the radii tensor.
     conv_radius = tf.reshape(tf.convert_to_tensor(value=conv_radius,
@@ -308,16 +310,27 @@ class KPConv(tf.Module):
     points_diff = (neigh_point_coords - center_point_coords) / \
         tf.reshape(radii_tensor, [1, self._num_dims])
     #Compute Monte-Carlo convolution
-    convolution_result = self._kp_conv(points_diff, neigh, features)
-    return _format_output(convolution_result,
-                          point_cloud_out,
-                          return_sorted,
-                          return_padded)
+    convolution_result, points_dist, center_offsets = self._kp_conv(
+        points_diff, neigh, features, sigma, num_output_points)
+    output = _format_output(convolution_result,
+                            point_cloud_out,
+                            return_sorted,
+                            return_padded)
+
+    # save values for regularization loss computation, only of complete calls
+    self._sigma = sigma
+    self._num_output_points = num_output_points
+    self._cur_point_dist = points_dist
+    self._cur_neighbors = neigh._original_neigh_ids
+    self._offsets = center_offsets
+    return output
 
   def _kernel_offsets(self,
                       kernel_input,
                       neighborhood,
-                      features):
+                      features,
+                      sigma,
+                      num_output_points):
     """ Method to compute the kernel offsets for deformable KPConv
     using a rigid KPConv.
 
@@ -337,9 +350,12 @@ class KPConv(tf.Module):
         kernel, i.e. the distances between neighbor pairs.
       neighborhood: A `Neighborhood` instance.
       features: A `float` `Tensor` of shape `[N1, C1]`, the input features.
+      sigma: A `float`, the normalized influence distance of the kernel points.
+      num_output_points: An `int`, `N2`.
 
     Returns:
-      A `float` `Tensor` of shape `[K, M, D]`, the offsets.
+      A `float` `Tensor` of shape `[M, K, D]`, the offsets per neighbor pair.
+      A `float` `Tensor` of shape `[N2, K, D]`, the offsets per output point.
 
     """
     # neighbor pairs ids
@@ -348,7 +364,7 @@ class KPConv(tf.Module):
     points_diff = tf.expand_dims(kernel_input, 1) - \
         tf.expand_dims(self._kernel_points, 0)
     points_dist = tf.linalg.norm(points_diff, axis=2)
-    kernel_weights = self._weighting(points_dist, self._sigma)
+    kernel_weights = self._weighting(points_dist, sigma)
 
     # Pad zeros to fullfil requirements of the basis_proj custom op,
     # 8, 16, or 32 basis are allowed.
@@ -379,17 +395,18 @@ class KPConv(tf.Module):
                    [-1, self._num_features_in * self._num_kernel_points]),
         self._kernel_offsets_weights)
 
-    # save for regularization loss computation
-    self._offsets = tf.reshape(offset_per_center, [self._num_output_points,
-                                                   self._num_kernel_points,
-                                                   self._num_dims])
+    # per output point, for regularization loss computation
+    center_offsets = tf.reshape(offset_per_center, [num_output_points,
+                                                    self._num_kernel_points,
+                                                    self._num_dims])
     # project back onto neighbor pairs, shape [M, D*K]
     offset_per_nb = tf.gather(offset_per_center, neighbors[:, 1])
     # reshape to shape [M, K, self._num_dims]
-    return  tf.reshape(offset_per_nb,
-                       [neighbors.shape[0],
-                        self._num_kernel_points,
-                        self._num_dims])
+    offset_per_nb = tf.reshape(offset_per_nb,
+                               [neighbors.shape[0],
+                                self._num_kernel_points,
+                                self._num_dims])
+    return offset_per_nb, center_offsets
 
   def regularization_loss(self, name=None):
     """ The regularization loss for deformable kernel points.
-- 
2.43.0


From fafac3dd37924ca6fa80753ed5847149a6a52658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 24/48] fix: KPConv regularization loss is finite for output
 points without neighbors

---
 pylib/pc/layers/KPConv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/pc/layers/KPConv.py b/pylib/pc/layers/KPConv.py
index 7d7eb72..04946e1 100644
--- a/pylib/pc/layers/KPConv.py
+++ b/pylib/pc/layers/KPConv.py
@@ -427,7 +427,9 @@ class KPConv(tf.Module):
     min_dists_per_nbh = tf.math.unsorted_segment_min(point_dist,
                                                      neighbors[:, 1],
                                                      self._num_output_points)
-    loss_fit = tf.reduce_sum(min_dists_per_nbh)
+    # output points without neighbors have no distance to fit
+    centers, _ = tf.unique(neighbors[:, 1])
+    loss_fit = tf.reduce_sum(tf.gather(min_dists_per_nbh, centers))
 
     # repulsive loss for kernel points with overlapping influence area.
     kernel_offsets = self._offsets
-- 
2.43.0


From 7e3fbaa3e721a0f3657a61a5566ed3bd62cb8082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 25/48] fix: reading points to a tensor rejects lines with
 missing features

---
 pylib/io/points.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index a9a42bd..1cfaa28 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -53,6 +53,9 @@ def load_points_from_file_to_tensor(filename,
           points.append(line_elements[0:dimension])
           features.append(line_elements[dimension:])
 
+      # not detected by the conversion if the first lines have no features
+      if any(len(feature) != len(features[0]) for feature in features):
+        raise ValueError(f"Lines of different length in file: {filename}")
       points = tf.convert_to_tensor(value=points, dtype=tf.string)
       features = tf.convert_to_tensor(value=features, dtype=tf.string)
       points = tf.strings.to_number(input=points, out_type=dtype)
-- 
2.43.0


From 8e62940bde15ce00f617f6ae8b39444e2b2bfae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:16 +0000
Subject: [PATCH 26/48] fix: cell keys of the fallback do not overflow with
 more than 2^31 cells

Keys and their strides were computed in int32; high dimensional grids with
more cells silently lost neighbors.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index dc733b5..dde8fce 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -44,12 +44,14 @@ def compute_keys_tf(point_cloud: PointCloud, num_cells, cell_size, name=None):
   cell_ind = tf.minimum(
       tf.maximum(cell_ind, tf.zeros_like(cell_ind)),
       num_cells - 1)
-  cell_multiplier = tf.math.cumprod(num_cells, reverse=True)
+  # the number of cells may exceed the range of int32
+  cell_multiplier = tf.math.cumprod(tf.cast(num_cells, tf.int64), reverse=True)
   cell_multiplier = tf.concat((cell_multiplier, [1]), axis=0)
-  keys = point_cloud._batch_ids * cell_multiplier[0] + \
-      tf.math.reduce_sum(cell_ind * tf.reshape(cell_multiplier[1:], [1, -1]),
+  keys = tf.cast(point_cloud._batch_ids, tf.int64) * cell_multiplier[0] + \
+      tf.math.reduce_sum(tf.cast(cell_ind, tf.int64) *
+                         tf.reshape(cell_multiplier[1:], [1, -1]),
                          axis=1)
-  return tf.cast(keys, tf.int64)
+  return keys
 tf.no_gradient('ComputeKeysTF')
 
 
@@ -69,7 +71,7 @@ def build_grid_ds_tf(sorted_keys, num_cells, batch_size, name=None):
     An `int` `Tensor` of shape `[batch_size, num_cells[0], num_cells[1], 2]`.
 
   """
-  sorted_keys = tf.cast(tf.convert_to_tensor(value=sorted_keys), tf.int32)
+  sorted_keys = tf.cast(tf.convert_to_tensor(value=sorted_keys), tf.int64)
   num_cells = tf.cast(tf.convert_to_tensor(value=num_cells), tf.int32)
 
   num_keys = tf.shape(sorted_keys)[0]
@@ -79,8 +81,8 @@ def build_grid_ds_tf(sorted_keys, num_cells, batch_size, name=None):
       'Points must have dimensionality >1.')
   cells_per_2D_cell = tf.cond(
     tf.shape(num_cells)[0] > 2,
-    lambda: tf.reduce_prod(num_cells[2:]),
-    lambda: 1
+    lambda: tf.reduce_prod(tf.cast(num_cells[2:], tf.int64)),
+    lambda: tf.constant(1, dtype=tf.int64)
   )
   # condition without graph mode
   # if tf.shape(num_cells)[0] > 2:
@@ -88,8 +90,7 @@ def build_grid_ds_tf(sorted_keys, num_cells, batch_size, name=None):
   # elif tf.shape(num_cells)[0] == 2:
   #     cells_per_2D_cell = 1
 
-  ds_indices = tf.cast(tf.floor(sorted_keys / cells_per_2D_cell),
-                       dtype=tf.int32)
+  ds_indices = tf.cast(sorted_keys // cells_per_2D_cell, dtype=tf.int32)
   indices = tf.range(0, num_keys, dtype=tf.int32)
   first_per_cell = tf.math.unsorted_segment_min(
       indices, ds_indices, num_cells_2D)
-- 
2.43.0


From 35399985d839d62f93d8520fabb2a114cf408ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 27/48] fix: limited neighbor search keeps its slots and
 counters over all passes

---
 .../cc/kernels/store_neighbors.h              |  8 ++++++
 .../cc/kernels/store_neighbors_kernels.cu.cc  | 25 +++++++++++--------
 .../cc/ops/find_neighbors_ops.cpp             | 14 ++++++++++-
 .../shared/cc/kernels/rnd_utils.h             |  2 +-
 4 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h
index 68a941d..71b81a1 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h
@@ -43,6 +43,12 @@ namespace mccnn{
      *  @param  pOutGPUPtrNumNeighsU    Input/Output pointer to the vector  
      *      with the number of neighbors for each sample without the limit of
      *      pMaxNeighbors.
+     *  @param  pInGPUPtrStartNeighs    Input pointer to the vector with the 
+     *      index of the first neighbor of each sample. Only used if there is 
+     *      a limit.
+     *  @param  pAuxGPUPtrCounter       Input/Output pointer to the number of 
+     *      neighbors found in the previous calls for each sample. Only used 
+     *      if there is a limit.
      *  @param  pOutGPUPtrNumNeighs     Input/Output pointer to the vector  
      *      with the number of neighbors for each sample on the GPU.
      *  @param  pOutGPUPtrNeighs        Output pointer to the vector with the 
@@ -60,6 +66,8 @@ namespace mccnn{
         const int* pInGPUPtrRanges,
         const float* pInGPUPtrInvRadii,
         int* pOutGPUPtrNumNeighsU,
+        const int* pInGPUPtrStartNeighs,
+        int* pAuxGPUPtrCounter,
         int* pOutGPUPtrNumNeighs,
         int* pOutGPUPtrNeighs);
         
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
index 011ea22..0816e3f 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
@@ -42,6 +42,7 @@
  *      search of neighbors in each dimension.
  *  @param  pOutNumNeighsU  Number of neighbors for each sample
  *      without the limit imposed by pMaxNeighbors.
+ *  @param  pStartNeighs    Index of the first neighbor of each sample.
  *  @param  pAuxCounter     Auxiliar counter.
  *  @param  pOutNumNeighs   Number of neighbors for each sample.
  *  @param  pOutNeighs      Final beighbors.
@@ -58,6 +59,7 @@
     const int2* __restrict__ pRanges,
     const mccnn::fpoint<D>* __restrict__ pInvRadii,
     const int* __restrict__ pOutNumNeighsU,
+    const int* __restrict__ pStartNeighs,
     int* __restrict__ pAuxCounter,
     int* __restrict__ pOutNumNeighs,
     int2* __restrict__ pOutNeighs)
@@ -93,8 +95,9 @@
                 //Increment the shared counters.
                 int neighIndex = atomicAdd(&pAuxCounter[sampleIndex], 1);
                 if(neighIndex < pMaxNeighbors){
-                    neighIndex = atomicAdd(&pOutNumNeighs[sampleIndex], 1);
-                    pOutNeighs[neighIndex] = make_int2(curPtIter, sampleIndex);
+                    atomicAdd(&pOutNumNeighs[sampleIndex], 1);
+                    pOutNeighs[pStartNeighs[sampleIndex] + neighIndex] = 
+                        make_int2(curPtIter, sampleIndex);
                 }else{
                     float ratio = (float)pMaxNeighbors/(float)pOutNumNeighsU[sampleIndex];
                     curSeed = mccnn::rand_xorshift(curSeed);
@@ -102,8 +105,10 @@
                     if(uniformVal < ratio){
                         curSeed = mccnn::rand_xorshift(curSeed);
                         uniformVal = mccnn::seed_to_float(curSeed);
-                        neighIndex = (int)floor(uniformVal*((float)pMaxNeighbors))+1;
-                        pOutNeighs[pOutNumNeighs[sampleIndex] - neighIndex] = make_int2(curPtIter, sampleIndex);
+                        neighIndex = min((int)floor(uniformVal*((float)pMaxNeighbors)), 
+                            pMaxNeighbors-1);
+                        pOutNeighs[pStartNeighs[sampleIndex] + neighIndex] = 
+                            make_int2(curPtIter, sampleIndex);
                     }
                 }
             }
@@ -181,6 +186,8 @@ void mccnn::store_neighbors(
     const int* pInGPUPtrRanges,
     const float* pInGPUPtrInvRadii,
     int* pOutGPUPtrNumNeighsU,
+    const int* pInGPUPtrStartNeighs,
+    int* pAuxGPUPtrCounter,
     int* pOutGPUPtrNumNeighs,
     int* pOutGPUPtrNeighs)
 {
@@ -193,11 +200,6 @@ void mccnn::store_neighbors(
     unsigned int numBlocks;
     unsigned int blockSize;
     if(pMaxNeighbors > 0){
-        //Create a temporal tensor.
-        int* tmpVect = pDevice->getIntTmpGPUBuffer(pNumSamples);
-        pDevice->memset(tmpVect, 0, sizeof(int)*pNumSamples);
-        pDevice->check_error(__FILE__, __LINE__);
-
         //Calculate the ideal number of blocks for the selected block size.
         unsigned int numMP = gpuProps.numMPs_;
         blockSize = gpuProps.warpSize_*2;
@@ -222,7 +224,8 @@ void mccnn::store_neighbors(
             (const int2*)pInGPUPtrRanges,
             (const mccnn::fpoint<D>*)pInGPUPtrInvRadii,
             pOutGPUPtrNumNeighsU,
-            tmpVect,
+            pInGPUPtrStartNeighs,
+            pAuxGPUPtrCounter,
             pOutGPUPtrNumNeighs,
             (int2*)pOutGPUPtrNeighs);
         pDevice->check_error(__FILE__, __LINE__);
@@ -282,6 +285,8 @@ void mccnn::store_neighbors(
         const int* pInGPUPtrRanges,             \
         const float* pInGPUPtrInvRadii,         \
         int* pOutGPUPtrNumNeighsU,              \
+        const int* pInGPUPtrStartNeighs,        \
+        int* pAuxGPUPtrCounter,                 \
         int* pOutGPUPtrNumNeighs,               \
         int* pOutGPUPtrNeighs);
 
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
index 4371275..0dc013e 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
@@ -225,6 +225,18 @@ namespace mccnn{
                 gpuDevice->memset(outputGPUPtr2, 0, sizeof(int)*numNeighbors*2);
                 gpuDevice->check_error(__FILE__, __LINE__);
 
+                //Store the start of each sample and create the counter of 
+                //found neighbors, both shared by all computations.
+                int* tmpGPUPtr5 = nullptr;
+                int* tmpGPUPtr6 = nullptr;
+                if(maxNeighs_ > 0){
+                    tmpGPUPtr5 = gpuDevice->getIntTmpGPUBuffer(numSamples);
+                    gpuDevice->memcpy_device_to_device(tmpGPUPtr5, outputGPUPtr1, sizeof(int)*numSamples);
+                    tmpGPUPtr6 = gpuDevice->getIntTmpGPUBuffer(numSamples);
+                    gpuDevice->memset(tmpGPUPtr6, 0, sizeof(int)*numSamples);
+                    gpuDevice->check_error(__FILE__, __LINE__);
+                }
+
                 for(int i = 0; i < numOfComputations; ++i)
                 {
                     if(numOfComputations > 1){
@@ -245,7 +257,7 @@ namespace mccnn{
                     DIMENSION_SWITCH_CALL(numDimensions, mccnn::store_neighbors,
                         gpuDevice, maxNeighs_, numSamples, NUM_OFFSETS_X_COMPUTE_BLOCK,  
                         samplesGPUPtr, ptsGPUPtr, tmpGPUPtr2, invRadiiGPUPtr, 
-                        tmpGPUPtr4, outputGPUPtr1, outputGPUPtr2);
+                        tmpGPUPtr4, tmpGPUPtr5, tmpGPUPtr6, outputGPUPtr1, outputGPUPtr2);
                 }
             }
 
diff --git a/custom_ops/tfg_custom_ops/shared/cc/kernels/rnd_utils.h b/custom_ops/tfg_custom_ops/shared/cc/kernels/rnd_utils.h
index 97c8152..5a24296 100755
--- a/custom_ops/tfg_custom_ops/shared/cc/kernels/rnd_utils.h
+++ b/custom_ops/tfg_custom_ops/shared/cc/kernels/rnd_utils.h
@@ -43,7 +43,7 @@ namespace mccnn{
         return pSeed;
     }
 
-    __device__ __forceinline__ unsigned int seed_to_float(unsigned int pSeed)
+    __device__ __forceinline__ float seed_to_float(unsigned int pSeed)
     {
         return float(pSeed) * (1.0 / 4294967296.0);
     }
-- 
2.43.0


From aececdf739b506446921db886938277593f79fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 28/48] fix: neighbor search copies its cell offsets before
 their host memory is released

---
 .../cc/ops/find_neighbors_ops.cpp             | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
index 0dc013e..c059523 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
@@ -166,8 +166,6 @@ namespace mccnn{
                 mccnn::int64_m* tmpGPUPtr1 = gpuDevice->getInt64TmpGPUBuffer(numSamples);
                 int* tmpGPUPtr2 = gpuDevice->getIntTmpGPUBuffer(
                     numSamples*NUM_OFFSETS_X_COMPUTE_BLOCK*2);
-                int* tmpGPUPtr3 = gpuDevice->getIntTmpGPUBuffer(
-                    NUM_OFFSETS_X_COMPUTE_BLOCK*numDimensions);
 
                 //Compute the keys of the samples.
                 DIMENSION_SWITCH_CALL(numDimensions, mccnn::compute_keys_gpu,
@@ -185,18 +183,23 @@ namespace mccnn{
                 int* combOffsetsPinnedMem = gpuDevice->getIntTmpGPUBuffer(bufferSize, true);
                 memcpy((void*)combOffsetsPinnedMem, (void*)&combOffsets[0], sizeof(int)*bufferSize);
 
+                //Copy to device all the offsets. The copy is finished before the pinned 
+                //memory is released, since the scan algorithm waits for its result.
+                int* tmpGPUPtr3 = gpuDevice->getIntTmpGPUBuffer(bufferSize);
+                gpuDevice->memcpy_host_to_device(tmpGPUPtr3, combOffsetsPinnedMem, 
+                    sizeof(int)*bufferSize);
+                gpuDevice->check_error(__FILE__, __LINE__);
+
                 for(int i = 0; i < numOfComputations; ++i)
                 {
-                    //Copy to device the offsets.
-                    gpuDevice->memcpy_host_to_device(tmpGPUPtr3, 
-                        &combOffsetsPinnedMem[numDimensions*NUM_OFFSETS_X_COMPUTE_BLOCK*i], 
-                        sizeof(int)*numDimensions*NUM_OFFSETS_X_COMPUTE_BLOCK);
-                    gpuDevice->check_error(__FILE__, __LINE__);
+                    //Get the offsets of this computation.
+                    const int* offsetsGPUPtr = &tmpGPUPtr3[
+                        numDimensions*NUM_OFFSETS_X_COMPUTE_BLOCK*i];
 
                     //Find ranges of points to check in the data structure.
                     DIMENSION_SWITCH_CALL(numDimensions, mccnn::find_ranges_grid_ds_gpu,
                         gpuDevice, numSamples, numPts, 1, NUM_OFFSETS_X_COMPUTE_BLOCK, 
-                        tmpGPUPtr3, tmpGPUPtr1, ptKeysGPUPtr,
+                        offsetsGPUPtr, tmpGPUPtr1, ptKeysGPUPtr,
                         gridDsGPUPtr, numCellsGPUPtr, tmpGPUPtr2);
 
                     //Count neighbors.
@@ -240,16 +243,14 @@ namespace mccnn{
                 for(int i = 0; i < numOfComputations; ++i)
                 {
                     if(numOfComputations > 1){
-                        //Copy to device the offsets.
-                        gpuDevice->memcpy_host_to_device(tmpGPUPtr3, 
-                            &combOffsetsPinnedMem[numDimensions*NUM_OFFSETS_X_COMPUTE_BLOCK*i], 
-                            sizeof(int)*numDimensions*NUM_OFFSETS_X_COMPUTE_BLOCK);
-                        gpuDevice->check_error(__FILE__, __LINE__);
+                        //Get the offsets of this computation.
+                        const int* offsetsGPUPtr = &tmpGPUPtr3[
+                            numDimensions*NUM_OFFSETS_X_COMPUTE_BLOCK*i];
 
                         //Find ranges of points to check in the data structure.
                         DIMENSION_SWITCH_CALL(numDimensions, mccnn::find_ranges_grid_ds_gpu,
                             gpuDevice, numSamples, numPts, 1, NUM_OFFSETS_X_COMPUTE_BLOCK, 
-                            tmpGPUPtr3, tmpGPUPtr1, ptKeysGPUPtr,
+                            offsetsGPUPtr, tmpGPUPtr1, ptKeysGPUPtr,
                             gridDsGPUPtr, numCellsGPUPtr, tmpGPUPtr2);
                     }
 
-- 
2.43.0


From 6826bb5427e0290f314f468edfe5ee67544ba13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 29/48] fix: neighbor ranges do not leave the cells of the last
 dimension

---
 .../cc/kernels/find_ranges_grid_ds_kernels.cu.cc     | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc
index aa4dfb3..2ca627f 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc
@@ -61,9 +61,6 @@ __global__ void find_ranges_grid_ds_gpu_kernel(
     int initPtIndex = mccnn::compute_global_index_gpu_funct();
     int totalThreads = mccnn::compute_total_threads_gpu_funct();
 
-    //Calculate the total number of cells.
-    mccnn::int64_m totalCells = mccnn::compute_total_num_cells_gpu_funct(pNumCells[0]);
-
     for(int curIter = initPtIndex; curIter < pNumSamples*pNumOffsets; curIter += totalThreads)
     {
         //Calculate the point and offset index.
@@ -98,13 +95,12 @@ __global__ void find_ranges_grid_ds_gpu_kernel(
             //Tube has at least 1 element.
             if(rangeSize >= 0){
 
-                //Compute max key of the range.
+                //Compute max key of the range, without leaving the cells of the last
+                //dimension.
                 mccnn::ipoint<D> auxCell(&cellIndex[1]);
                 mccnn::int64_m auxKey = mccnn::compute_key_gpu_funct(auxCell, pNumCells[0], cellIndex[0]);
-                mccnn::int64_m maxKey = auxKey+pLastDOffsets;
-                mccnn::int64_m minKey = auxKey-pLastDOffsets;
-                maxKey = (auxKey/totalCells == maxKey/totalCells)?maxKey:((auxKey/totalCells)*totalCells) + totalCells - 1;
-                minKey = (auxKey/totalCells == minKey/totalCells)?minKey:((auxKey/totalCells)*totalCells);
+                mccnn::int64_m maxKey = auxKey + min((int)pLastDOffsets, pNumCells[0][D-1]-1-auxCell[D-1]);
+                mccnn::int64_m minKey = auxKey - min((int)pLastDOffsets, auxCell[D-1]);
 
                 //Declare iterators and auxiliar variables.
                 int2 curMinRange = make_int2(0, rangeSize);
-- 
2.43.0


From a5e7d8cd7615f1c298e3467fb0e22e0d820bfc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:59 +0000
Subject: [PATCH 30/48] fix: block offsets of the scan are read before the next
 ones are written

---
 .../find_neighbors/cc/kernels/scan_alg_kernels.cu.cc            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
index a4ab33a..73c0542 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
@@ -165,6 +165,8 @@
 
         //Update the counters.
         pElems[curElemIndex] += blockOffset;
+
+        __syncthreads();
     }
 }
 
-- 
2.43.0


From 2deb9fafc45a372ecffc16c9ff08a33a02229017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 31/48] fix: GPU operations accept empty inputs

---
 .../basis_proj/cc/kernels/basis_proj_grads_kernels.cu.cc | 4 ++++
 .../basis_proj/cc/kernels/basis_proj_kernels.cu.cc       | 4 ++++
 .../build_grid_ds/cc/kernels/build_grid_ds_kernels.cu.cc | 4 ++++
 .../compute_keys/cc/kernels/compute_keys_kernels.cu.cc   | 4 ++++
 .../compute_pdf/cc/kernels/compute_pdf_kernels.cu.cc     | 8 ++++++++
 .../cc/kernels/count_neighbors_kernels.cu.cc             | 4 ++++
 .../cc/kernels/elem_wise_min_kernels.cu.cc               | 4 ++++
 .../cc/kernels/find_ranges_grid_ds_kernels.cu.cc         | 4 ++++
 .../find_neighbors/cc/kernels/scan_alg_kernels.cu.cc     | 4 ++++
 .../cc/kernels/store_neighbors_kernels.cu.cc             | 4 ++++
 .../cc/kernels/store_pooled_pts_kernels.cu.cc            | 4 ++++
 .../find_neighbors/cc/ops/find_neighbors_ops.cpp         | 9 +++++++++
 .../sampling/cc/kernels/count_sampling_pd_kernels.cu.cc  | 5 +++++
 .../sampling/cc/kernels/count_unique_keys_kernels.cu.cc  | 4 ++++
 .../sampling/cc/kernels/sampling_avg_kernels.cu.cc       | 4 ++++
 .../sampling/cc/kernels/store_sampled_pts_kernels.cu.cc  | 4 ++++
 .../sampling/cc/kernels/store_unique_keys_kernels.cu.cc  | 4 ++++
 17 files changed, 78 insertions(+)

diff --git a/custom_ops/tfg_custom_ops/basis_proj/cc/kernels/basis_proj_grads_kernels.cu.cc b/custom_ops/tfg_custom_ops/basis_proj/cc/kernels/basis_proj_grads_kernels.cu.cc
index 692a1fc..d56cc9c 100755
--- a/custom_ops/tfg_custom_ops/basis_proj/cc/kernels/basis_proj_grads_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/basis_proj/cc/kernels/basis_proj_grads_kernels.cu.cc
@@ -176,6 +176,10 @@ void mccnn::basis_proj_grads_gpu(
     pDevice->memset(pOutBasisGradsGPUPtr, 0, sizeof(float)*K*pNumNeighbors);
     pDevice->check_error(__FILE__, __LINE__);
 
+    //There is nothing to execute without elements.
+    if(pNumSamples == 0)
+        return;
+
     //Get the device properties.
     const GpuDeviceProperties& gpuProps = pDevice->get_device_properties();
 
diff --git a/custom_ops/tfg_custom_ops/basis_proj/cc/kernels/basis_proj_kernels.cu.cc b/custom_ops/tfg_custom_ops/basis_proj/cc/kernels/basis_proj_kernels.cu.cc
index f645394..2736d99 100755
--- a/custom_ops/tfg_custom_ops/basis_proj/cc/kernels/basis_proj_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/basis_proj/cc/kernels/basis_proj_kernels.cu.cc
@@ -146,6 +146,10 @@ void mccnn::basis_proj_gpu(
     pDevice->memset(pOutFeaturesGPUPtr, 0, sizeof(float)*pNumSamples*pNumInFeatures*K);
     pDevice->check_error(__FILE__, __LINE__);
 
+    //There is nothing to execute without elements.
+    if(pNumSamples == 0)
+        return;
+
     //Get the device properties.
     const GpuDeviceProperties& gpuProps = pDevice->get_device_properties();
 
diff --git a/custom_ops/tfg_custom_ops/build_grid_ds/cc/kernels/build_grid_ds_kernels.cu.cc b/custom_ops/tfg_custom_ops/build_grid_ds/cc/kernels/build_grid_ds_kernels.cu.cc
index c0b37e5..813321d 100755
--- a/custom_ops/tfg_custom_ops/build_grid_ds/cc/kernels/build_grid_ds_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/build_grid_ds/cc/kernels/build_grid_ds_kernels.cu.cc
@@ -104,6 +104,10 @@ void mccnn::build_grid_ds_gpu(
     pDevice->memset(pOutGPUPtrDS, 0, sizeof(int)*pDSSize);
     pDevice->check_error(__FILE__, __LINE__);
 
+    //There is nothing to execute without elements.
+    if(pNumPts == 0)
+        return;
+
     //Execute the cuda kernel.
     build_grid_gpu_kernel<D><<<totalNumBlocks, blockSize, 0, cudaStream>>>(
         pNumPts, 
diff --git a/custom_ops/tfg_custom_ops/compute_keys/cc/kernels/compute_keys_kernels.cu.cc b/custom_ops/tfg_custom_ops/compute_keys/cc/kernels/compute_keys_kernels.cu.cc
index 4b9bdda..5111491 100755
--- a/custom_ops/tfg_custom_ops/compute_keys/cc/kernels/compute_keys_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/compute_keys/cc/kernels/compute_keys_kernels.cu.cc
@@ -86,6 +86,10 @@ void mccnn::compute_keys_gpu(
     //Get the cuda stream.
     auto cudaStream = pDevice->getCUDAStream();
 
+    //There is nothing to execute without elements.
+    if(pNumPts == 0)
+        return;
+
     //Get the device properties.
     const GpuDeviceProperties& gpuProps = pDevice->get_device_properties();
 
diff --git a/custom_ops/tfg_custom_ops/compute_pdf/cc/kernels/compute_pdf_kernels.cu.cc b/custom_ops/tfg_custom_ops/compute_pdf/cc/kernels/compute_pdf_kernels.cu.cc
index 3e05547..e2af447 100755
--- a/custom_ops/tfg_custom_ops/compute_pdf/cc/kernels/compute_pdf_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/compute_pdf/cc/kernels/compute_pdf_kernels.cu.cc
@@ -232,6 +232,10 @@ void mccnn::compute_pdf_gpu(
     //Get the cuda stream.
     auto cudaStream = pDevice->getCUDAStream();
 
+    //There is nothing to execute without elements.
+    if(pNumSamples == 0)
+        return;
+
     //Get the device properties.
     const GpuDeviceProperties& gpuProps = pDevice->get_device_properties();
 
@@ -293,6 +297,10 @@ void mccnn::compute_pdf_grads_gpu(
     pDevice->memset(pOutGPUPtrPtGrads, 0, sizeof(float)*pNumPts*D);
     pDevice->check_error(__FILE__, __LINE__);
 
+    //There is nothing to execute without elements.
+    if(pNumSamples == 0)
+        return;
+
     //Get the device properties.
     const GpuDeviceProperties& gpuProps = pDevice->get_device_properties();
 
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/count_neighbors_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/count_neighbors_kernels.cu.cc
index aa8b10f..c1c8f37 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/count_neighbors_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/count_neighbors_kernels.cu.cc
@@ -117,6 +117,10 @@ void mccnn::count_neighbors(
     //Get the cuda stream.
     auto cudaStream = pDevice->getCUDAStream();
 
+    //There is nothing to execute without elements.
+    if(pNumSamples == 0)
+        return;
+
     //Get the device properties.
     const GpuDeviceProperties& gpuProps = pDevice->get_device_properties();
 
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/elem_wise_min_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/elem_wise_min_kernels.cu.cc
index 759294f..b469e65 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/elem_wise_min_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/elem_wise_min_kernels.cu.cc
@@ -65,6 +65,10 @@ void mccnn::elem_wise_min_value(
     //Get the cuda stream.
     auto cudaStream = pDevice->getCUDAStream();
 
+    //There is nothing to execute without elements.
+    if(pNumElements == 0)
+        return;
+
     //Get the device properties.
     const GpuDeviceProperties& gpuProps = pDevice->get_device_properties();
 
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc
index 2ca627f..8cf2f91 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc
@@ -253,6 +253,10 @@ void mccnn::find_ranges_grid_ds_gpu(
     pDevice->memset(pOutGPUPtrRanges, 0, sizeof(int)*pNumSamples*pNumOffsets*2);
     pDevice->check_error(__FILE__, __LINE__);
 
+    //There is nothing to execute without elements.
+    if(pNumSamples == 0)
+        return;
+
     //Get the device properties.
     const GpuDeviceProperties& gpuProps = pDevice->get_device_properties();
 
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
index 73c0542..fd6ee7b 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
@@ -180,6 +180,10 @@ unsigned int mccnn::scan_alg(
     //Get the cuda stream.
     auto cudaStream = pDevice->getCUDAStream();
 
+    //There is nothing to execute without elements.
+    if(pNumElems == 0)
+        return 0;
+
     //Get the device properties.
     const GpuDeviceProperties& gpuProps = pDevice->get_device_properties();
 
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
index 0816e3f..f13a0ce 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
@@ -194,6 +194,10 @@ void mccnn::store_neighbors(
     //Get the cuda stream.
     auto cudaStream = pDevice->getCUDAStream();
 
+    //There is nothing to execute without elements.
+    if(pNumSamples == 0)
+        return;
+
     //Get the device properties.
     const GpuDeviceProperties& gpuProps = pDevice->get_device_properties();
 
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_pooled_pts_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_pooled_pts_kernels.cu.cc
index 4d629cc..2bcb021 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_pooled_pts_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_pooled_pts_kernels.cu.cc
@@ -89,6 +89,10 @@ void mccnn::store_pooled_pts_gpu(
     pDevice->memset(tmpCounter, 0, sizeof(int));
     pDevice->check_error(__FILE__, __LINE__);
 
+    //There is nothing to execute without elements.
+    if(pNumPts == 0)
+        return;
+
     //Get the device properties.
     const GpuDeviceProperties& gpuProps = pDevice->get_device_properties();
 
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
index c059523..d183ac7 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
@@ -162,6 +162,15 @@ namespace mccnn{
                 gpuDevice->memset(outputGPUPtr1, 0, sizeof(int)*numSamples);
                 gpuDevice->check_error(__FILE__, __LINE__);
 
+                //Without samples there are no neighbors.
+                if(numSamples == 0){
+                    int* emptyGPUPtr = nullptr;
+                    TensorShape emptyShape = TensorShape{0, 2};
+                    OP_REQUIRES_OK(pContext, mccnn::tensorflow_utils::allocate_output_tensor<int>
+                        (1, pContext, emptyShape, &emptyGPUPtr));
+                    return;
+                }
+
                 //Create the temporal tensors.
                 mccnn::int64_m* tmpGPUPtr1 = gpuDevice->getInt64TmpGPUBuffer(numSamples);
                 int* tmpGPUPtr2 = gpuDevice->getIntTmpGPUBuffer(
diff --git a/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_sampling_pd_kernels.cu.cc b/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_sampling_pd_kernels.cu.cc
index 6efa0c6..7f1b59f 100755
--- a/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_sampling_pd_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_sampling_pd_kernels.cu.cc
@@ -126,6 +126,11 @@ void mccnn::count_sampling_pd_gpu(
     //Get the cuda stream.
     auto cudaStream = pDevice->getCUDAStream();
 
+    //There is nothing to execute without elements.
+    pOutNumSampledPts = 0;
+    if(pNumPts == 0)
+        return;
+
     //Initialize memory.
     int* tmpCounter = pDevice->getIntTmpGPUBuffer(1);
     pDevice->memset(tmpCounter, 0, sizeof(int));
diff --git a/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_unique_keys_kernels.cu.cc b/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_unique_keys_kernels.cu.cc
index 5d9ebd6..9d68810 100755
--- a/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_unique_keys_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_unique_keys_kernels.cu.cc
@@ -77,6 +77,10 @@ unsigned int mccnn::count_unique_keys_gpu(
     //Get the cuda stream.
     auto cudaStream = pDevice->getCUDAStream();
 
+    //There is nothing to execute without elements.
+    if(pNumPts == 0)
+        return 0;
+
     //Get the gpu counter.
     int* tmpCounter = pDevice->getIntTmpGPUBuffer(1);
     pDevice->memset(tmpCounter, 0, sizeof(int));
diff --git a/custom_ops/tfg_custom_ops/sampling/cc/kernels/sampling_avg_kernels.cu.cc b/custom_ops/tfg_custom_ops/sampling/cc/kernels/sampling_avg_kernels.cu.cc
index 71b2a21..18acde6 100755
--- a/custom_ops/tfg_custom_ops/sampling/cc/kernels/sampling_avg_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/sampling/cc/kernels/sampling_avg_kernels.cu.cc
@@ -104,6 +104,10 @@ void mccnn::sampling_avg_gpu(
     //Get the cuda stream.
     auto cudaStream = pDevice->getCUDAStream();
 
+    //There is nothing to execute without elements.
+    if(pNumSampledPts == 0)
+        return;
+
     //Get the device properties.
     const GpuDeviceProperties& gpuProps = pDevice->get_device_properties();
 
diff --git a/custom_ops/tfg_custom_ops/sampling/cc/kernels/store_sampled_pts_kernels.cu.cc b/custom_ops/tfg_custom_ops/sampling/cc/kernels/store_sampled_pts_kernels.cu.cc
index 7d15c58..5e5e7fb 100755
--- a/custom_ops/tfg_custom_ops/sampling/cc/kernels/store_sampled_pts_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/sampling/cc/kernels/store_sampled_pts_kernels.cu.cc
@@ -89,6 +89,10 @@ void mccnn::store_sampled_pts_gpu(
     pDevice->memset(tmpCounter, 0, sizeof(int));
     pDevice->check_error(__FILE__, __LINE__);
 
+    //There is nothing to execute without elements.
+    if(pNumPts == 0)
+        return;
+
     //Get the device properties.
     const GpuDeviceProperties& gpuProps = pDevice->get_device_properties();
 
diff --git a/custom_ops/tfg_custom_ops/sampling/cc/kernels/store_unique_keys_kernels.cu.cc b/custom_ops/tfg_custom_ops/sampling/cc/kernels/store_unique_keys_kernels.cu.cc
index 1cdc5f6..2a369de 100755
--- a/custom_ops/tfg_custom_ops/sampling/cc/kernels/store_unique_keys_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/sampling/cc/kernels/store_unique_keys_kernels.cu.cc
@@ -66,6 +66,10 @@ void mccnn::store_unique_keys_gpu(
     //Get the cuda stream.
     auto cudaStream = pDevice->getCUDAStream();
 
+    //There is nothing to execute without elements.
+    if(pNumPts == 0)
+        return;
+
     //Get the gpu counter.
     int* tmpCounter = pDevice->getIntTmpGPUBuffer(sizeof(int));
     pDevice->memset(tmpCounter, 0, sizeof(int));
-- 
2.43.0


From 00ebfdefea0ce438126380362c4df2a815313d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 32/48] fix: failed allocations of outputs are reported and
 empty tensors are not read

---
 .../tfg_custom_ops/shared/cc/kernels/tf_gpu_device.cpp |  4 ++--
 .../tfg_custom_ops/shared/cc/kernels/tf_utils.hpp      | 10 ++++------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/custom_ops/tfg_custom_ops/shared/cc/kernels/tf_gpu_device.cpp b/custom_ops/tfg_custom_ops/shared/cc/kernels/tf_gpu_device.cpp
index 7b8d934..05cc005 100755
--- a/custom_ops/tfg_custom_ops/shared/cc/kernels/tf_gpu_device.cpp
+++ b/custom_ops/tfg_custom_ops/shared/cc/kernels/tf_gpu_device.cpp
@@ -136,9 +136,9 @@ namespace mccnn{
             exit(-1);
             //TODO - Proper error handling, exceptions.
         }
-        auto tmpTensorFlat = pTmpTensor->flat<T>();
+        T* tmpPtr = pTmpTensor->flat<T>().data();
         tmpTensors_.push_back(std::move(pTmpTensor));
-        return &(tmpTensorFlat(0));
+        return tmpPtr;
     }
 
     template int* TFGPUDevice::getTmpGPUBuffer<int>(const unsigned int pSize, bool pCPUManaged);
diff --git a/custom_ops/tfg_custom_ops/shared/cc/kernels/tf_utils.hpp b/custom_ops/tfg_custom_ops/shared/cc/kernels/tf_utils.hpp
index 013e9df..3b934a8 100755
--- a/custom_ops/tfg_custom_ops/shared/cc/kernels/tf_utils.hpp
+++ b/custom_ops/tfg_custom_ops/shared/cc/kernels/tf_utils.hpp
@@ -41,8 +41,7 @@ namespace mccnn{
         template<class T>
         inline T* get_tensor_pointer(const Tensor& pTensor)
         {
-            auto tensorFlat = pTensor.flat<T>();
-            return &(tensorFlat(0));
+            return pTensor.flat<T>().data();
         }
 
         /**
@@ -53,8 +52,7 @@ namespace mccnn{
         template<class T>
         inline const T* get_const_tensor_pointer(const Tensor& pTensor)
         {
-            auto tensorFlat = pTensor.flat<T>();
-            return &(tensorFlat(0));
+            return pTensor.flat<T>().data();
         }
 
         /**
@@ -75,8 +73,8 @@ namespace mccnn{
             Tensor* outTensor = nullptr;
             Status retStatus = pContext->allocate_output(
                 pIndex, pShape, &outTensor);
-            auto outTensorFlat = outTensor->flat<T>();
-            *pOutPtr = &(outTensorFlat(0));
+            if(retStatus.ok())
+                *pOutPtr = outTensor->flat<T>().data();
             return retStatus;
         }
     }
-- 
2.43.0


From e6ba26e3fba81a9fddc1938103243bbf5bb21c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 33/48] fix: GPU operations check the number of dimensions of
 their inputs

---
 .../basis_proj/cc/ops/basis_proj_ops.cpp      | 16 ++++++++++++++++
 .../cc/ops/build_grid_ds_ops.cpp              |  9 +++++++++
 .../compute_keys/cc/ops/compute_keys_ops.cpp  |  9 +++++++++
 .../compute_pdf/cc/ops/compute_pdf_ops.cpp    | 19 +++++++++++++++++++
 .../cc/ops/find_neighbors_ops.cpp             | 15 +++++++++++++++
 .../sampling/cc/ops/sampling_ops.cpp          | 10 ++++++++++
 6 files changed, 78 insertions(+)

diff --git a/custom_ops/tfg_custom_ops/basis_proj/cc/ops/basis_proj_ops.cpp b/custom_ops/tfg_custom_ops/basis_proj/cc/ops/basis_proj_ops.cpp
index 4b45f5e..a098158 100755
--- a/custom_ops/tfg_custom_ops/basis_proj/cc/ops/basis_proj_ops.cpp
+++ b/custom_ops/tfg_custom_ops/basis_proj/cc/ops/basis_proj_ops.cpp
@@ -82,6 +82,14 @@ namespace mccnn{
                 const Tensor& inNeighbors = pContext->input(2); 
                 const Tensor& inSampleNeighIndices = pContext->input(3);
 
+                //Check the number of dimensions of the input.
+                OP_REQUIRES(pContext, inBasisIns.dims() == 2 &&
+                    inPtFeatures.dims() == 2 &&
+                    inNeighbors.dims() == 2 &&
+                    inSampleNeighIndices.dims() == 1, 
+                    errors::InvalidArgument("BasisProjOp expects input tensors with the right"
+                    " number of dimensions."));
+
                 //Get variables from tensors.
                 unsigned int numPts = inPtFeatures.shape().dim_size(0);
                 unsigned int numSamples = inSampleNeighIndices.shape().dim_size(0);
@@ -162,6 +170,14 @@ namespace mccnn{
                 const Tensor& inSampleNeighIndices = pContext->input(3);
                 const Tensor& inGradients = pContext->input(4);
 
+                //Check the number of dimensions of the input.
+                OP_REQUIRES(pContext, inBasisIns.dims() == 2 &&
+                    inPtFeatures.dims() == 2 &&
+                    inNeighbors.dims() == 2 &&
+                    inSampleNeighIndices.dims() == 1, 
+                    errors::InvalidArgument("BasisProjOpGrads expects input tensors with the right"
+                    " number of dimensions."));
+
                 //Get variables from tensors.
                 unsigned int numPts = inPtFeatures.shape().dim_size(0);
                 unsigned int numSamples = inSampleNeighIndices.shape().dim_size(0);
diff --git a/custom_ops/tfg_custom_ops/build_grid_ds/cc/ops/build_grid_ds_ops.cpp b/custom_ops/tfg_custom_ops/build_grid_ds/cc/ops/build_grid_ds_ops.cpp
index 36b81f3..e6faff9 100755
--- a/custom_ops/tfg_custom_ops/build_grid_ds/cc/ops/build_grid_ds_ops.cpp
+++ b/custom_ops/tfg_custom_ops/build_grid_ds/cc/ops/build_grid_ds_ops.cpp
@@ -71,6 +71,13 @@ namespace mccnn{
                 const Tensor& inNumCellsGPU = pContext->input(1); 
                 const Tensor& inNumCellsCPU = pContext->input(2); 
 
+                //Check the number of dimensions of the input.
+                OP_REQUIRES(pContext, inKeys.dims() == 1 &&
+                    inNumCellsGPU.dims() == 1 &&
+                    inNumCellsCPU.dims() == 1, 
+                    errors::InvalidArgument("BuildGridDsOp expects input tensors with the right"
+                    " number of dimensions."));
+
                 //Get variables from tensors.
                 unsigned int numPts = inKeys.shape().dim_size(0);
                 unsigned int numDimensions = inNumCellsGPU.shape().dim_size(0);
@@ -89,6 +96,8 @@ namespace mccnn{
                 OP_REQUIRES(pContext, inNumCellsCPU.shape().dim_size(0) == numDimensions, 
                     errors::InvalidArgument("BuildGridDsOp expects number of cells with the"
                     " same dimensions in both parameters"));
+                OP_REQUIRES(pContext, numCellsCPU(0) > 0 && numCellsCPU(1) > 0, 
+                    errors::InvalidArgument("BuildGridDsOp expects a positive number of cells"));
 
                 //Create the output tensor.
                 int* outputGPUPtr = nullptr;
diff --git a/custom_ops/tfg_custom_ops/compute_keys/cc/ops/compute_keys_ops.cpp b/custom_ops/tfg_custom_ops/compute_keys/cc/ops/compute_keys_ops.cpp
index abdd948..712acf0 100755
--- a/custom_ops/tfg_custom_ops/compute_keys/cc/ops/compute_keys_ops.cpp
+++ b/custom_ops/tfg_custom_ops/compute_keys/cc/ops/compute_keys_ops.cpp
@@ -71,6 +71,15 @@ namespace mccnn{
                 const Tensor& inNumCells = pContext->input(3); 
                 const Tensor& inInvCellSizes = pContext->input(4); 
 
+                //Check the number of dimensions of the input.
+                OP_REQUIRES(pContext, inPts.dims() == 2 &&
+                    inBatchIds.dims() == 1 &&
+                    inSAABBMin.dims() == 2 &&
+                    inNumCells.dims() == 1 &&
+                    inInvCellSizes.dims() == 1, 
+                    errors::InvalidArgument("ComputeKeysOp expects input tensors with the right"
+                    " number of dimensions."));
+
                 //Get variables from tensors.
                 unsigned int numPts = inPts.shape().dim_size(0);
                 unsigned int numDimensions = inPts.shape().dim_size(1);
diff --git a/custom_ops/tfg_custom_ops/compute_pdf/cc/ops/compute_pdf_ops.cpp b/custom_ops/tfg_custom_ops/compute_pdf/cc/ops/compute_pdf_ops.cpp
index 1965163..c7d93e8 100755
--- a/custom_ops/tfg_custom_ops/compute_pdf/cc/ops/compute_pdf_ops.cpp
+++ b/custom_ops/tfg_custom_ops/compute_pdf/cc/ops/compute_pdf_ops.cpp
@@ -107,6 +107,15 @@ namespace mccnn{
                 const Tensor& inInvBandwidth = pContext->input(3);
                 const Tensor& inInvRadii = pContext->input(4);
 
+                //Check the number of dimensions of the input.
+                OP_REQUIRES(pContext, inPts.dims() == 2 &&
+                    inNeighbors.dims() == 2 &&
+                    inSampleNeighIndices.dims() == 1 &&
+                    inInvBandwidth.dims() == 1 &&
+                    inInvRadii.dims() == 1, 
+                    errors::InvalidArgument("ComputePDFOp expects input tensors with the right"
+                    " number of dimensions."));
+
                 //Get variables from tensors.
                 unsigned int numPts = inPts.shape().dim_size(0);
                 unsigned int numSamples = inSampleNeighIndices.shape().dim_size(0);
@@ -195,6 +204,16 @@ namespace mccnn{
                 const Tensor& inInvRadii = pContext->input(4);
                 const Tensor& inPDFGrads = pContext->input(5);
 
+                //Check the number of dimensions of the input.
+                OP_REQUIRES(pContext, inPts.dims() == 2 &&
+                    inNeighbors.dims() == 2 &&
+                    inSampleNeighIndices.dims() == 1 &&
+                    inInvBandwidth.dims() == 1 &&
+                    inInvRadii.dims() == 1 &&
+                    inPDFGrads.dims() == 1, 
+                    errors::InvalidArgument("ComputePDFPtGradsOp expects input tensors with the right"
+                    " number of dimensions."));
+
                 //Get variables from tensors.
                 unsigned int numSamples = inSampleNeighIndices.shape().dim_size(0);
                 unsigned int numPts = inPts.shape().dim_size(0);
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
index d183ac7..5c5a13f 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
@@ -96,6 +96,18 @@ namespace mccnn{
                 const Tensor& inInvCellSizes = pContext->input(7); 
                 const Tensor& inInvRadii = pContext->input(8); 
 
+                //Check the number of dimensions of the input.
+                OP_REQUIRES(pContext, inSamples.dims() == 2 &&
+                    inBatchIds.dims() == 1 &&
+                    inPts.dims() == 2 &&
+                    inPtKeys.dims() == 1 &&
+                    inNumCells.dims() == 1 &&
+                    inSAABBMin.dims() == 2 &&
+                    inInvCellSizes.dims() == 1 &&
+                    inInvRadii.dims() == 1, 
+                    errors::InvalidArgument("FindNeighborsOp expects input tensors with the right"
+                    " number of dimensions."));
+
                 //Get variables from tensors.
                 unsigned int numSamples = inSamples.shape().dim_size(0);
                 unsigned int numPts = inPts.shape().dim_size(0);
@@ -150,6 +162,9 @@ namespace mccnn{
                     inGridDs.shape().dim_size(3) == 2, 
                     errors::InvalidArgument("FindNeighborsOp expects a grid acceleration data"
                     " structure with the right format (B, X, Y, 2)."));
+                OP_REQUIRES(pContext, inGridDs.shape().dim_size(0) == inSAABBMin.shape().dim_size(0), 
+                    errors::InvalidArgument("FindNeighborsOp expects the same batch size in the"
+                    " grid acceleration data structure as in inSAABBMin."));
 
                 //Get the gpu device.
                 std::unique_ptr<mccnn::IGPUDevice> gpuDevice = make_unique<mccnn::TFGPUDevice>(pContext);
diff --git a/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp b/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp
index 5a3e5b5..b96e893 100755
--- a/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp
+++ b/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp
@@ -88,6 +88,16 @@ namespace mccnn{
                 const Tensor& inNeighbors = pContext->input(4); 
                 const Tensor& inStartNeighIds = pContext->input(5); 
 
+                //Check the number of dimensions of the input.
+                OP_REQUIRES(pContext, inPts.dims() == 2 &&
+                    inBatchIds.dims() == 1 &&
+                    inPtKeys.dims() == 1 &&
+                    inNumCells.dims() == 1 &&
+                    inNeighbors.dims() == 2 &&
+                    inStartNeighIds.dims() == 1, 
+                    errors::InvalidArgument("SamplingOp expects input tensors with the right"
+                    " number of dimensions."));
+
                 //Get variables from tensors.
                 unsigned int numPts = inPts.shape().dim_size(0);
                 unsigned int numDimensions = inPts.shape().dim_size(1);
-- 
2.43.0


From 83e17a8fa9647a8defc57cfb7290ca59be9ee51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 34/48] fix: errors of the GPU device fail the operation
 instead of ending the process

---
 .../basis_proj/cc/ops/basis_proj_ops.cpp      | 16 ++--
 .../cc/ops/build_grid_ds_ops.cpp              |  8 +-
 .../compute_keys/cc/ops/compute_keys_ops.cpp  |  8 +-
 .../compute_pdf/cc/ops/compute_pdf_ops.cpp    | 16 ++--
 .../cc/ops/find_neighbors_ops.cpp             |  8 +-
 .../sampling/cc/ops/sampling_ops.cpp          |  8 +-
 .../shared/cc/kernels/tf_gpu_device.cpp       | 18 ++---
 .../shared/cc/kernels/tf_gpu_device.hpp       | 76 +++++++++++++++++--
 8 files changed, 117 insertions(+), 41 deletions(-)

diff --git a/custom_ops/tfg_custom_ops/basis_proj/cc/ops/basis_proj_ops.cpp b/custom_ops/tfg_custom_ops/basis_proj/cc/ops/basis_proj_ops.cpp
index a098158..16fcdf7 100755
--- a/custom_ops/tfg_custom_ops/basis_proj/cc/ops/basis_proj_ops.cpp
+++ b/custom_ops/tfg_custom_ops/basis_proj/cc/ops/basis_proj_ops.cpp
@@ -57,7 +57,7 @@ namespace mccnn{
     /**
      *  Operation to project input features into a set of basis functions.
      */
-    class BasisProjOp: public OpKernel{
+    class BasisProjOp: public TFGPUOpKernel{
         
         public:
         
@@ -67,14 +67,16 @@ namespace mccnn{
              */
             explicit BasisProjOp(
                 OpKernelConstruction* pContext)
-                :OpKernel(pContext){
+                :TFGPUOpKernel(pContext){
             }
         
+        protected:
+
             /**
              *  Method to compute the operation.
              *  @param  pContext    Context of the operation.
              */
-            void Compute(OpKernelContext * pContext) override{
+            void compute_gpu(OpKernelContext * pContext) override{
 
                 //Get the input tensors.
                 const Tensor& inBasisIns = pContext->input(0);
@@ -144,7 +146,7 @@ namespace mccnn{
     /**
      *  Operation to compute a monte carlo convolution.
      */
-    class BasisProjGradsOp: public OpKernel{
+    class BasisProjGradsOp: public TFGPUOpKernel{
         
         public:
         
@@ -154,14 +156,16 @@ namespace mccnn{
              */
             explicit BasisProjGradsOp(
                 OpKernelConstruction* pContext)
-                :OpKernel(pContext){
+                :TFGPUOpKernel(pContext){
             }
         
+        protected:
+
             /**
              *  Method to compute the operation.
              *  @param  pContext    Context of the operation.
              */
-            void Compute(OpKernelContext * pContext) override{
+            void compute_gpu(OpKernelContext * pContext) override{
 
                 //Get the input tensors.
                 const Tensor& inBasisIns = pContext->input(0);
diff --git a/custom_ops/tfg_custom_ops/build_grid_ds/cc/ops/build_grid_ds_ops.cpp b/custom_ops/tfg_custom_ops/build_grid_ds/cc/ops/build_grid_ds_ops.cpp
index e6faff9..022a2a9 100755
--- a/custom_ops/tfg_custom_ops/build_grid_ds/cc/ops/build_grid_ds_ops.cpp
+++ b/custom_ops/tfg_custom_ops/build_grid_ds/cc/ops/build_grid_ds_ops.cpp
@@ -44,7 +44,7 @@ namespace mccnn{
     /**
      *  Operation to build the data structure to access a regular grid.
      */
-    class BuildGridDsOp: public OpKernel{
+    class BuildGridDsOp: public TFGPUOpKernel{
         
         public:
         
@@ -54,17 +54,19 @@ namespace mccnn{
              */
             explicit BuildGridDsOp(
                 OpKernelConstruction* pContext)
-                :OpKernel(pContext){
+                :TFGPUOpKernel(pContext){
                 OP_REQUIRES_OK(pContext, pContext->GetAttr("batch_size", &batchSize_));
                 OP_REQUIRES(pContext, batchSize_ > 0, 
                     errors::InvalidArgument("BuildGridDsOp requires a positive batch size"));
             }
         
+        protected:
+
             /**
              *  Method to compute the operation.
              *  @param  pContext    Context of the operation.
              */
-            void Compute(OpKernelContext * pContext) override{
+            void compute_gpu(OpKernelContext * pContext) override{
 
                 //Get the input tensors.
                 const Tensor& inKeys = pContext->input(0); 
diff --git a/custom_ops/tfg_custom_ops/compute_keys/cc/ops/compute_keys_ops.cpp b/custom_ops/tfg_custom_ops/compute_keys/cc/ops/compute_keys_ops.cpp
index 712acf0..9a65b98 100755
--- a/custom_ops/tfg_custom_ops/compute_keys/cc/ops/compute_keys_ops.cpp
+++ b/custom_ops/tfg_custom_ops/compute_keys/cc/ops/compute_keys_ops.cpp
@@ -45,7 +45,7 @@ namespace mccnn{
     /**
      *  Operation to compute the keys of each point in a regular grid.
      */
-    class ComputeKeysOp: public OpKernel{
+    class ComputeKeysOp: public TFGPUOpKernel{
         
         public:
         
@@ -55,14 +55,16 @@ namespace mccnn{
              */
             explicit ComputeKeysOp(
                 OpKernelConstruction* pContext)
-                :OpKernel(pContext){
+                :TFGPUOpKernel(pContext){
             }
         
+        protected:
+
             /**
              *  Method to compute the operation.
              *  @param  pContext    Context of the operation.
              */
-            void Compute(OpKernelContext * pContext) override{
+            void compute_gpu(OpKernelContext * pContext) override{
 
                 //Get the input tensors.
                 const Tensor& inPts = pContext->input(0); 
diff --git a/custom_ops/tfg_custom_ops/compute_pdf/cc/ops/compute_pdf_ops.cpp b/custom_ops/tfg_custom_ops/compute_pdf/cc/ops/compute_pdf_ops.cpp
index c7d93e8..7123b61 100755
--- a/custom_ops/tfg_custom_ops/compute_pdf/cc/ops/compute_pdf_ops.cpp
+++ b/custom_ops/tfg_custom_ops/compute_pdf/cc/ops/compute_pdf_ops.cpp
@@ -78,7 +78,7 @@ namespace mccnn{
     /**
      *  Operation to compute the pdf of each neighbor.
      */
-    class ComputePDFOp: public OpKernel{
+    class ComputePDFOp: public TFGPUOpKernel{
         
         public:
         
@@ -88,17 +88,19 @@ namespace mccnn{
              */
             explicit ComputePDFOp(
                 OpKernelConstruction* pContext)
-                :OpKernel(pContext){
+                :TFGPUOpKernel(pContext){
                 OP_REQUIRES_OK(pContext, pContext->GetAttr("mode", &mode_));
                 OP_REQUIRES(pContext, mode_ >= 0 && mode_ < 2, 
                     errors::InvalidArgument("ComputePDFOp requires a mode between 0 and 1"));
             }
         
+        protected:
+
             /**
              *  Method to compute the operation.
              *  @param  pContext    Context of the operation.
              */
-            void Compute(OpKernelContext * pContext) override{
+            void compute_gpu(OpKernelContext * pContext) override{
 
                 //Get the input tensors.
                 const Tensor& inPts = pContext->input(0); 
@@ -173,7 +175,7 @@ namespace mccnn{
     /**
      *  Operation to compute the gradients of each point wrt the pdf values.
      */
-    class ComputePDFPtGradsOp: public OpKernel{
+    class ComputePDFPtGradsOp: public TFGPUOpKernel{
         
         public:
         
@@ -183,18 +185,20 @@ namespace mccnn{
              */
             explicit ComputePDFPtGradsOp(
                 OpKernelConstruction* pContext)
-                :OpKernel(pContext){
+                :TFGPUOpKernel(pContext){
                 OP_REQUIRES_OK(pContext, pContext->GetAttr("mode", &mode_));
                 OP_REQUIRES(pContext, mode_ >= 0 && mode_ < 2, 
                     errors::InvalidArgument("ComputePDFPtGradsOp requires a mode"
                     " between 0 and 1"));
             }
         
+        protected:
+
             /**
              *  Method to compute the operation.
              *  @param  pContext    Context of the operation.
              */
-            void Compute(OpKernelContext * pContext) override{
+            void compute_gpu(OpKernelContext * pContext) override{
 
                 //Get the input tensors.
                 const Tensor& inPts = pContext->input(0); 
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
index 5c5a13f..0aef443 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
@@ -65,7 +65,7 @@ namespace mccnn{
     /**
      *  Operation to find the neighboring points to a set of samples.
      */
-    class FindNeighborsOp: public OpKernel{
+    class FindNeighborsOp: public TFGPUOpKernel{
         
         public:
         
@@ -75,15 +75,17 @@ namespace mccnn{
              */
             explicit FindNeighborsOp(
                 OpKernelConstruction* pContext)
-                :OpKernel(pContext){
+                :TFGPUOpKernel(pContext){
                 OP_REQUIRES_OK(pContext, pContext->GetAttr("max_neighs", &maxNeighs_));
             }
         
+        protected:
+
             /**
              *  Method to compute the operation.
              *  @param  pContext    Context of the operation.
              */
-            void Compute(OpKernelContext * pContext) override{
+            void compute_gpu(OpKernelContext * pContext) override{
 
                 //Get the input tensors.
                 const Tensor& inSamples = pContext->input(0); 
diff --git a/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp b/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp
index b96e893..9e63256 100755
--- a/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp
+++ b/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp
@@ -57,7 +57,7 @@ namespace mccnn{
     /**
      *  Operation to perform a sampling operation on a regular grid.
      */
-    class SamplingOp: public OpKernel{
+    class SamplingOp: public TFGPUOpKernel{
         
         public:
         
@@ -67,18 +67,20 @@ namespace mccnn{
              */
             explicit SamplingOp(
                 OpKernelConstruction* pContext)
-                :OpKernel(pContext){
+                :TFGPUOpKernel(pContext){
 
                 OP_REQUIRES_OK(pContext, pContext->GetAttr("mode", &mode_));
                 OP_REQUIRES(pContext, mode_ >= 0 && mode_ < 2, 
                     errors::InvalidArgument("SamplingOp requires a valid sampling mode."));
             }
         
+        protected:
+
             /**
              *  Method to compute the operation.
              *  @param  pContext    Context of the operation.
              */
-            void Compute(OpKernelContext * pContext) override{
+            void compute_gpu(OpKernelContext * pContext) override{
 
                 //Get the input tensors.
                 const Tensor& inPts = pContext->input(0); 
diff --git a/custom_ops/tfg_custom_ops/shared/cc/kernels/tf_gpu_device.cpp b/custom_ops/tfg_custom_ops/shared/cc/kernels/tf_gpu_device.cpp
index 05cc005..3188b7e 100755
--- a/custom_ops/tfg_custom_ops/shared/cc/kernels/tf_gpu_device.cpp
+++ b/custom_ops/tfg_custom_ops/shared/cc/kernels/tf_gpu_device.cpp
@@ -21,9 +21,6 @@
 #include "tf_gpu_device.hpp"
 #include "tf_utils.hpp"
 
-#include <stdio.h>
-#include <stdlib.h>
-
 namespace mccnn{
 
     TFGPUDevice::TFGPUDevice(tensorflow::OpKernelContext* pContext):
@@ -93,9 +90,8 @@ namespace mccnn{
         cudaError_t errorCode = cudaPeekAtLastError();
         if (errorCode != cudaSuccess) 
         {
-            fprintf(stderr,"GPUassert: %s %s %d\n", cudaGetErrorString(errorCode), pFile, pLine);
-            exit(errorCode);
-            //TODO - Proper error handling, exceptions.
+            throw TFGPUError(errors::Internal("GPUassert: ", 
+                cudaGetErrorString(errorCode), " ", pFile, " ", pLine));
         }
     }
 
@@ -130,12 +126,10 @@ namespace mccnn{
         
         std::unique_ptr<tensorflow::Tensor> pTmpTensor = make_unique<tensorflow::Tensor>();
         TensorShape tmpShape = TensorShape{pSize};
-        if(!TF_PREDICT_TRUE(context_->allocate_temp(
-            DataTypeToEnum<T>::value, tmpShape, pTmpTensor.get(), allocatorAtt).ok())){
-            fprintf(stderr,"Error allocating temporal tensor of %ld bytes.\n", sizeof(T)*pSize);
-            exit(-1);
-            //TODO - Proper error handling, exceptions.
-        }
+        Status allocStatus = context_->allocate_temp(
+            DataTypeToEnum<T>::value, tmpShape, pTmpTensor.get(), allocatorAtt);
+        if(!TF_PREDICT_TRUE(allocStatus.ok()))
+            throw TFGPUError(allocStatus);
         T* tmpPtr = pTmpTensor->flat<T>().data();
         tmpTensors_.push_back(std::move(pTmpTensor));
         return tmpPtr;
diff --git a/custom_ops/tfg_custom_ops/shared/cc/kernels/tf_gpu_device.hpp b/custom_ops/tfg_custom_ops/shared/cc/kernels/tf_gpu_device.hpp
index 530c521..922eca0 100755
--- a/custom_ops/tfg_custom_ops/shared/cc/kernels/tf_gpu_device.hpp
+++ b/custom_ops/tfg_custom_ops/shared/cc/kernels/tf_gpu_device.hpp
@@ -19,18 +19,84 @@
 #ifndef TF_GPU_DEVICE_H_
 #define TF_GPU_DEVICE_H_
 
+#include <exception>
 #include <vector>
 #include <memory>
 
 #include "gpu_device.hpp"
-
-namespace tensorflow{
-    class OpKernelContext;
-    class Tensor;
-}
+#include "tf_utils.hpp"
 
 namespace mccnn{
 
+    /**
+     *  Error of the gpu device, which ends the operation in execution.
+     */
+    class TFGPUError: public std::exception
+    {
+        public:
+
+            /**
+             *  Constructor.
+             *  @param  pStatus    Status of the operation.
+             */
+            explicit TFGPUError(const tensorflow::Status& pStatus):
+                std::exception(), status_(pStatus)
+            {}
+
+            /**
+             *  Method to get the status of the operation.
+             *  @return Status of the operation.
+             */
+            const tensorflow::Status& status() const
+            {
+                return status_;
+            }
+
+        private:
+
+            /**Status of the operation.*/
+            tensorflow::Status  status_;
+    };
+
+    /**
+     *  Base class of the operations executed on the gpu. Errors of the gpu 
+     *  device are the result of the operation.
+     */
+    class TFGPUOpKernel: public tensorflow::OpKernel
+    {
+        public:
+
+            /**
+             *  Constructor.
+             *  @param  pContext    Constructor context of the operation.
+             */
+            explicit TFGPUOpKernel(
+                tensorflow::OpKernelConstruction* pContext):
+                tensorflow::OpKernel(pContext)
+            {}
+
+            /**
+             *  Method to compute the operation.
+             *  @param  pContext    Context of the operation.
+             */
+            void Compute(tensorflow::OpKernelContext* pContext) final
+            {
+                try{
+                    compute_gpu(pContext);
+                }catch(const TFGPUError& pError){
+                    pContext->CtxFailure(pError.status());
+                }
+            }
+
+        protected:
+
+            /**
+             *  Method to compute the operation on the gpu.
+             *  @param  pContext    Context of the operation.
+             */
+            virtual void compute_gpu(tensorflow::OpKernelContext* pContext) = 0;
+    };
+
     /**
      *  Tensorflow GPU Device object.
      */
-- 
2.43.0


From 8cc136728a00f8bd1758e6428ed05e54915cfa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 35/48] fix: shape functions of the GPU operations check the
 number of dimensions

---
 .../basis_proj/cc/ops/basis_proj_ops.cpp           | 10 +++++++---
 .../compute_keys/cc/ops/compute_keys_ops.cpp       |  4 +++-
 .../compute_pdf/cc/ops/compute_pdf_ops.cpp         | 14 ++++++++++----
 .../find_neighbors/cc/ops/find_neighbors_ops.cpp   |  4 +++-
 .../sampling/cc/ops/sampling_ops.cpp               |  4 +++-
 5 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/custom_ops/tfg_custom_ops/basis_proj/cc/ops/basis_proj_ops.cpp b/custom_ops/tfg_custom_ops/basis_proj/cc/ops/basis_proj_ops.cpp
index 16fcdf7..0deb7e9 100755
--- a/custom_ops/tfg_custom_ops/basis_proj/cc/ops/basis_proj_ops.cpp
+++ b/custom_ops/tfg_custom_ops/basis_proj/cc/ops/basis_proj_ops.cpp
@@ -29,11 +29,15 @@ REGISTER_OP("BasisProj")
     .Input("sample_neigh_indices: int32")
     .Output("features: float32")
     .SetShapeFn([](shape_inference::InferenceContext* pIC) {
+        shape_inference::ShapeHandle basisIns, ptFeatures, sampleNeighIndices;
+        TF_RETURN_IF_ERROR(pIC->WithRank(pIC->input(0), 2, &basisIns));
+        TF_RETURN_IF_ERROR(pIC->WithRank(pIC->input(1), 2, &ptFeatures));
+        TF_RETURN_IF_ERROR(pIC->WithRank(pIC->input(3), 1, &sampleNeighIndices));
         shape_inference::ShapeHandle outputDims = 
             pIC->MakeShape({
-                pIC->Dim(pIC->input(3), 0),
-                pIC->Dim(pIC->input(1), 1),
-                pIC->Dim(pIC->input(0), 1)});
+                pIC->Dim(sampleNeighIndices, 0),
+                pIC->Dim(ptFeatures, 1),
+                pIC->Dim(basisIns, 1)});
         pIC->set_output(0, outputDims);
         return Status::OK();
     });
diff --git a/custom_ops/tfg_custom_ops/compute_keys/cc/ops/compute_keys_ops.cpp b/custom_ops/tfg_custom_ops/compute_keys/cc/ops/compute_keys_ops.cpp
index 9a65b98..53f1563 100755
--- a/custom_ops/tfg_custom_ops/compute_keys/cc/ops/compute_keys_ops.cpp
+++ b/custom_ops/tfg_custom_ops/compute_keys/cc/ops/compute_keys_ops.cpp
@@ -34,8 +34,10 @@ REGISTER_OP("ComputeKeys")
     .Input("inv_cell_sizes: float32")
     .Output("keys: int64")
     .SetShapeFn([](shape_inference::InferenceContext* pIC) {
+        shape_inference::ShapeHandle points;
+        TF_RETURN_IF_ERROR(pIC->WithRank(pIC->input(0), 2, &points));
         shape_inference::ShapeHandle outputDims = 
-            pIC->MakeShape({pIC->Dim(pIC->input(0), 0)});
+            pIC->MakeShape({pIC->Dim(points, 0)});
         pIC->set_output(0, outputDims);
         return Status::OK();
     });
diff --git a/custom_ops/tfg_custom_ops/compute_pdf/cc/ops/compute_pdf_ops.cpp b/custom_ops/tfg_custom_ops/compute_pdf/cc/ops/compute_pdf_ops.cpp
index 7123b61..8e80486 100755
--- a/custom_ops/tfg_custom_ops/compute_pdf/cc/ops/compute_pdf_ops.cpp
+++ b/custom_ops/tfg_custom_ops/compute_pdf/cc/ops/compute_pdf_ops.cpp
@@ -34,8 +34,10 @@ REGISTER_OP("ComputePdf")
     .Output("pdfs: float32")
     .Attr("mode: int")
     .SetShapeFn([](shape_inference::InferenceContext* pIC) {
+        shape_inference::ShapeHandle sampleNeighIndices;
+        TF_RETURN_IF_ERROR(pIC->WithRank(pIC->input(2), 1, &sampleNeighIndices));
         shape_inference::ShapeHandle outputDims = 
-            pIC->MakeShape({pIC->Dim(pIC->input(2), 0)});
+            pIC->MakeShape({pIC->Dim(sampleNeighIndices, 0)});
         pIC->set_output(0, outputDims);
         return Status::OK();
     });
@@ -49,8 +51,10 @@ REGISTER_OP("ComputePdfWithPtGrads")
     .Output("pdfs: float32")
     .Attr("mode: int")
     .SetShapeFn([](shape_inference::InferenceContext* pIC) {
+        shape_inference::ShapeHandle sampleNeighIndices;
+        TF_RETURN_IF_ERROR(pIC->WithRank(pIC->input(2), 1, &sampleNeighIndices));
         shape_inference::ShapeHandle outputDims = 
-            pIC->MakeShape({pIC->Dim(pIC->input(2), 0)});
+            pIC->MakeShape({pIC->Dim(sampleNeighIndices, 0)});
         pIC->set_output(0, outputDims);
         return Status::OK();
     });
@@ -65,10 +69,12 @@ REGISTER_OP("ComputePdfPtGrads")
     .Output("pt_grads: float32")
     .Attr("mode: int")
     .SetShapeFn([](shape_inference::InferenceContext* pIC) {
+        shape_inference::ShapeHandle points;
+        TF_RETURN_IF_ERROR(pIC->WithRank(pIC->input(0), 2, &points));
         shape_inference::ShapeHandle outputDims = 
             pIC->MakeShape({
-            pIC->Dim(pIC->input(0), 0),
-            pIC->Dim(pIC->input(0), 1)});
+            pIC->Dim(points, 0),
+            pIC->Dim(points, 1)});
         pIC->set_output(0, outputDims);
         return Status::OK();
     });
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
index 0aef443..cd83ae2 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
@@ -53,7 +53,9 @@ REGISTER_OP("FindNeighbors")
     .Output("neigh_indices: int32")
     .Attr("max_neighs:int")
     .SetShapeFn([](shape_inference::InferenceContext* pIC) {
-        shape_inference::ShapeHandle outputDims1 = pIC->MakeShape({pIC->Dim(pIC->input(0), 0)});
+        shape_inference::ShapeHandle samples;
+        TF_RETURN_IF_ERROR(pIC->WithRank(pIC->input(0), 2, &samples));
+        shape_inference::ShapeHandle outputDims1 = pIC->MakeShape({pIC->Dim(samples, 0)});
         shape_inference::ShapeHandle outputDims2 = pIC->MakeShape({-1, 2});
         pIC->set_output(0, outputDims1);
         pIC->set_output(1, outputDims2);
diff --git a/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp b/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp
index 9e63256..36bdbdd 100755
--- a/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp
+++ b/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp
@@ -42,8 +42,10 @@ REGISTER_OP("Sampling")
     .Output("sample_indices: int32")
     .Attr("mode: int")
     .SetShapeFn([](shape_inference::InferenceContext* pIC) {
+        shape_inference::ShapeHandle points;
+        TF_RETURN_IF_ERROR(pIC->WithRank(pIC->input(0), 2, &points));
         shape_inference::ShapeHandle outputDims1 = 
-            pIC->MakeShape({-1, pIC->Dim(pIC->input(0), 1)});
+            pIC->MakeShape({-1, pIC->Dim(points, 1)});
         shape_inference::ShapeHandle outputDims2 = 
             pIC->MakeShape({-1});
         pIC->set_output(0, outputDims1);
-- 
2.43.0


From 39a86b5fe4abaa58c920d947394d708690ff9a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 36/48] fix: densities can be normalised in functions compiled
 for any size

---
 pylib/pc/Neighborhood.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index d183d60..de789fe 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -139,7 +139,8 @@ def density_estimation(point_cloud,
     unsorted_indices = tf.math.invert_permutation(grid._sorted_indices)
     pdf = tf.gather(pdf_sorted, unsorted_indices)
   if normalize:
-    pdf = pdf / point_cloud._points.shape[0]
+    num_points = tf.shape(point_cloud._points)[0]
+    pdf = pdf / tf.cast(num_points, pdf.dtype)
   return pdf
 
 
@@ -280,7 +281,7 @@ class Neighborhood:
       norm_factors = tf.math.unsorted_segment_sum(
           tf.ones_like(pdf),
           self._neighbors[:, 1],
-          self._point_cloud_sampled._points.shape[0])
+          tf.shape(self._point_cloud_sampled._points)[0])
       pdf = pdf / tf.gather(norm_factors, self._neighbors[:, 1])
     # publish only the complete result, other callers may use the cached value
     self._pdf = pdf
-- 
2.43.0


From 520aea90230487502ad052c82947b16320820667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 37/48] fix: deformable KPConv can be used in functions
 compiled for any size

---
 pylib/pc/layers/KPConv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/layers/KPConv.py b/pylib/pc/layers/KPConv.py
index 04946e1..76c1ef5 100644
--- a/pylib/pc/layers/KPConv.py
+++ b/pylib/pc/layers/KPConv.py
@@ -280,7 +280,7 @@ class KPConv(tf.Module):
     features = tf.cast(tf.convert_to_tensor(value=features),
                        dtype=tf.float32)
     features = _flatten_features(features, point_cloud_in)
-    num_output_points = point_cloud_out._points.shape[0]
+    num_output_points = tf.shape(point_cloud_out._points)[0]
 
     if kernel_influence_dist is None:
       # normalized
@@ -403,7 +403,7 @@ class KPConv(tf.Module):
     offset_per_nb = tf.gather(offset_per_center, neighbors[:, 1])
     # reshape to shape [M, K, self._num_dims]
     offset_per_nb = tf.reshape(offset_per_nb,
-                               [neighbors.shape[0],
+                               [tf.shape(neighbors)[0],
                                 self._num_kernel_points,
                                 self._num_dims])
     return offset_per_nb, center_offsets
-- 
2.43.0


From 74d8234ce9ea27e27e4dc775c050e4bd926eb636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 38/48] fix: spatial bottleneck blocks can be used in compiled
 functions

---
 pylib/pc/layers/network_blocks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index d99f699..ce0cacc 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -418,7 +418,8 @@ class PointResNetSpatialBottleNeck(tf.Module):
                                         radii_tensor[1],
                                         point_cloud_downsampled))
       # upsampling
-      if conv_radii[0] == conv_radii[2]:
+      known_radii = tf.get_static_value(conv_radii)
+      if known_radii is not None and known_radii[0] == known_radii[2]:
         neighborhoods.append(neighborhoods[0].transpose())
       else:
         grid_up = Grid(point_cloud_downsampled, radii_tensor[2])
-- 
2.43.0


From a10a8fa17b3d80b9ec0fda5af5605e2d47f4ce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 39/48] fix: a failed CUDA launch is reported once and does not
 fail later ops

---
 custom_ops/tfg_custom_ops/shared/cc/kernels/tf_gpu_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/custom_ops/tfg_custom_ops/shared/cc/kernels/tf_gpu_device.cpp b/custom_ops/tfg_custom_ops/shared/cc/kernels/tf_gpu_device.cpp
index 3188b7e..d0973c7 100755
--- a/custom_ops/tfg_custom_ops/shared/cc/kernels/tf_gpu_device.cpp
+++ b/custom_ops/tfg_custom_ops/shared/cc/kernels/tf_gpu_device.cpp
@@ -87,7 +87,7 @@ namespace mccnn{
         const char* pFile, 
         int pLine)
     {
-        cudaError_t errorCode = cudaPeekAtLastError();
+        cudaError_t errorCode = cudaGetLastError();
         if (errorCode != cudaSuccess) 
         {
             throw TFGPUError(errors::Internal("GPUassert: ", 
-- 
2.43.0


From 9e68ac669ca2c58250dee73b1b8189e75647b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 40/48] fix: CUDA ops destroy the events they create

---
 .../find_neighbors/cc/kernels/scan_alg_kernels.cu.cc             | 1 +
 .../sampling/cc/kernels/count_sampling_pd_kernels.cu.cc          | 1 +
 .../sampling/cc/kernels/count_unique_keys_kernels.cu.cc          | 1 +
 3 files changed, 3 insertions(+)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
index fd6ee7b..11f0c19 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
@@ -267,6 +267,7 @@ unsigned int mccnn::scan_alg(
     cudaEventCreate(&resEvent);
     cudaEventRecord(resEvent, cudaStream);
     cudaEventSynchronize(resEvent);
+    cudaEventDestroy(resEvent);
 
     return accumScan[0];
 }
\ No newline at end of file
diff --git a/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_sampling_pd_kernels.cu.cc b/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_sampling_pd_kernels.cu.cc
index 7f1b59f..f0ba617 100755
--- a/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_sampling_pd_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_sampling_pd_kernels.cu.cc
@@ -197,6 +197,7 @@ void mccnn::count_sampling_pd_gpu(
     cudaEventCreate(&resEvent);
     cudaEventRecord(resEvent, cudaStream);
     cudaEventSynchronize(resEvent);
+    cudaEventDestroy(resEvent);
 
     //Collect the result.
     pOutNumSampledPts = auxNumSampledPts[0];
diff --git a/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_unique_keys_kernels.cu.cc b/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_unique_keys_kernels.cu.cc
index 9d68810..a3e2b09 100755
--- a/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_unique_keys_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_unique_keys_kernels.cu.cc
@@ -119,6 +119,7 @@ unsigned int mccnn::count_unique_keys_gpu(
     cudaEventCreate(&resEvent);
     cudaEventRecord(resEvent, cudaStream);
     cudaEventSynchronize(resEvent);
+    cudaEventDestroy(resEvent);
 
     return numUniqueKeys[0]+1;
 }
-- 
2.43.0


From 328a4c5ba2cc33a731ed3033b82d6188c8ccb555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 41/48] fix: CUDA ops report a failed copy of a counter from
 the device

---
 .../find_neighbors/cc/kernels/scan_alg_kernels.cu.cc             | 1 +
 .../sampling/cc/kernels/count_sampling_pd_kernels.cu.cc          | 1 +
 .../sampling/cc/kernels/count_unique_keys_kernels.cu.cc          | 1 +
 3 files changed, 3 insertions(+)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
index 11f0c19..2e1f2b9 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
@@ -268,6 +268,7 @@ unsigned int mccnn::scan_alg(
     cudaEventRecord(resEvent, cudaStream);
     cudaEventSynchronize(resEvent);
     cudaEventDestroy(resEvent);
+    pDevice->check_error(__FILE__, __LINE__);
 
     return accumScan[0];
 }
\ No newline at end of file
diff --git a/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_sampling_pd_kernels.cu.cc b/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_sampling_pd_kernels.cu.cc
index f0ba617..6d2298b 100755
--- a/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_sampling_pd_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_sampling_pd_kernels.cu.cc
@@ -198,6 +198,7 @@ void mccnn::count_sampling_pd_gpu(
     cudaEventRecord(resEvent, cudaStream);
     cudaEventSynchronize(resEvent);
     cudaEventDestroy(resEvent);
+    pDevice->check_error(__FILE__, __LINE__);
 
     //Collect the result.
     pOutNumSampledPts = auxNumSampledPts[0];
diff --git a/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_unique_keys_kernels.cu.cc b/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_unique_keys_kernels.cu.cc
index a3e2b09..6dc5d13 100755
--- a/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_unique_keys_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/sampling/cc/kernels/count_unique_keys_kernels.cu.cc
@@ -120,6 +120,7 @@ unsigned int mccnn::count_unique_keys_gpu(
     cudaEventRecord(resEvent, cudaStream);
     cudaEventSynchronize(resEvent);
     cudaEventDestroy(resEvent);
+    pDevice->check_error(__FILE__, __LINE__);
 
     return numUniqueKeys[0]+1;
 }
-- 
2.43.0


From 6d613d96e375fc2df147cf35568e958792fce933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 42/48] fix: gradients of KPConv at kernel points are finite

---
 pylib/pc/layers/KPConv.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/pylib/pc/layers/KPConv.py b/pylib/pc/layers/KPConv.py
index 76c1ef5..ff1dbcc 100644
--- a/pylib/pc/layers/KPConv.py
+++ b/pylib/pc/layers/KPConv.py
@@ -56,6 +56,24 @@ def _gaussian_weighting(values, sigma):
   sigma = sigma / 3
   return tf.exp(-(values / sigma)**2)
 
+
+def _norm(vectors, axis):
+  """ Euclidean norm along an axis, with gradient zero at the origin.
+
+  Args:
+    vectors: A `float` `Tensor`.
+    axis: An `int`, the axis of the coordinates.
+
+  Returns:
+    A `float` `Tensor` without the dimension `axis`.
+
+  """
+  squared = tf.reduce_sum(vectors * vectors, axis=axis)
+  positive = squared > 0
+  # the square root has no finite derivative at zero
+  root = tf.sqrt(tf.where(positive, squared, tf.ones_like(squared)))
+  return tf.where(positive, root, tf.zeros_like(root))
+
 kernel_interpolation = {'linear': _linear_weighting,
                         'gaussian': _gaussian_weighting}
 
@@ -199,7 +217,7 @@ class KPConv(tf.Module):
         kernel_input, neighborhood, features, sigma, num_output_points)
     points_diff = tf.expand_dims(kernel_input, 1) - \
         (tf.expand_dims(self._kernel_points, 0) + kernel_offsets)
-    points_dist = tf.linalg.norm(points_diff, axis=2)
+    points_dist = _norm(points_diff, axis=2)
     kernel_weights = self._weighting(points_dist, sigma)
 
     # Pad zeros to fullfil requirements of the basis_proj custom op,
@@ -363,7 +381,7 @@ class KPConv(tf.Module):
     # kernel weights from distances, shape [M, K]
     points_diff = tf.expand_dims(kernel_input, 1) - \
         tf.expand_dims(self._kernel_points, 0)
-    points_dist = tf.linalg.norm(points_diff, axis=2)
+    points_dist = _norm(points_diff, axis=2)
     kernel_weights = self._weighting(points_dist, sigma)
 
     # Pad zeros to fullfil requirements of the basis_proj custom op,
@@ -435,9 +453,9 @@ class KPConv(tf.Module):
     kernel_offsets = self._offsets
     # shape [N2, K, D]
     kernel_points = tf.expand_dims(self._kernel_points, 0) + kernel_offsets
-    kernel_dists = tf.linalg.norm(tf.expand_dims(kernel_points, 1) - \
-                                  tf.expand_dims(kernel_points, 2),
-                                  axis=3)
+    kernel_dists = _norm(tf.expand_dims(kernel_points, 1) - \
+                         tf.expand_dims(kernel_points, 2),
+                         axis=3)
     kernel_weights = self._weighting(kernel_dists, self._sigma)
     # set weight between same kernel point to zero
     kernel_weights = tf.linalg.set_diag(kernel_weights,
-- 
2.43.0


From e462f2e97e286666bc582dda5e99d6bdcb4b0cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 43/48] fix: kernel points of KPConv are saved and restored
 with the layer

---
 pylib/pc/layers/KPConv.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/layers/KPConv.py b/pylib/pc/layers/KPConv.py
index ff1dbcc..3eedb40 100644
--- a/pylib/pc/layers/KPConv.py
+++ b/pylib/pc/layers/KPConv.py
@@ -145,8 +145,11 @@ class KPConv(tf.Module):
       self._kernel_points = tf.convert_to_tensor(value=custom_kernel_points,
                                                  dtype=tf.float32)
 
-    # Reposition the points at radius 0.75.
-    self._kernel_points = self._kernel_points * 0.75
+    # Reposition the points at radius 0.75. A variable, since the random rotation
+    # belongs to the state of the layer that is saved and restored.
+    self._kernel_points = tf.Variable(self._kernel_points * 0.75,
+                                      trainable=False,
+                                      name=self._name + "/kernel_points")
 
     # initialize variables
     if initializer_weights is None:
-- 
2.43.0


From 37b42200fa8254dfe3ba4819212c25739c208615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 44/48] fix: MCConv keeps its own copy of the hidden layer
 sizes

---
 pylib/pc/layers/MCConv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/layers/MCConv.py b/pylib/pc/layers/MCConv.py
index f21059a..ff9361f 100644
--- a/pylib/pc/layers/MCConv.py
+++ b/pylib/pc/layers/MCConv.py
@@ -74,7 +74,7 @@ class MCConv(tf.Module):
     self._num_features_in = num_features_in
     self._num_features_out = num_features_out
     self._num_mlps = num_mlps
-    self._mlp_size = mlp_size
+    self._mlp_size = list(mlp_size)
     self._num_dims = num_dims
     self._non_linearity_type = non_linearity_type
 
-- 
2.43.0


From 5b109f966d64b3683fa5b3dcfc61164f82fa4b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 45/48] fix: a point cloud keeps the value of the batch size,
 not the array it was passed in

---
 pylib/pc/PointCloud.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 54c67a5..64fd724 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -103,7 +103,10 @@ class PointCloud:
 
     self._sizes = sizes
     # compatibility batch size as CPU int for graph mode
-    self._batch_size_numpy = batch_size
+    if batch_size is None or tf.is_tensor(batch_size):
+      self._batch_size_numpy = self._batch_size
+    else:
+      self._batch_size_numpy = int(batch_size)
     self._batch_ids = batch_ids
     self._dimension = tf.gather(tf.shape(points), tf.rank(points) - 1)
     self._batch_shape = None
-- 
2.43.0


From 0f333c92fb23d36724734b0e6a9e9b674f5be7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 46/48] fix: PointResNetSpatialBottleNeck accepts radii in
 every float format

---
 pylib/pc/layers/network_blocks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index ce0cacc..1d1f756 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -401,7 +401,8 @@ class PointResNetSpatialBottleNeck(tf.Module):
     """
     features = tf.convert_to_tensor(value=features, dtype=tf.float32)
     features = _flatten_features(features, point_cloud)
-    conv_radii = tf.convert_to_tensor(value=conv_radii)
+    conv_radii = tf.cast(tf.convert_to_tensor(value=conv_radii),
+                         dtype=tf.float32)
     radii = tf.reshape(conv_radii, [3, 1])
 
     if neighborhoods is None:
-- 
2.43.0


From 51fc063dab53b6d07c000a4e221638dcdfa3d945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 47/48] fix: get_neighborhood of a hierarchy does not hand out
 its own list

---
 pylib/pc/PointHierarchy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index c6b31f3..138b560 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -178,7 +178,7 @@ class PointHierarchy:
       if transposed:
         return [nb.transpose() for nb in self._neighborhoods]
       else:
-        return self._neighborhoods
+        return list(self._neighborhoods)
     else:
       if transposed:
         return self._neighborhoods[i].transpose()
-- 
2.43.0


From 32ca367078e1df9ebd88c155785edf550f00064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:50 +0000
Subject: [PATCH 48/48] fix: 15 and 18 point kernels lie on both sides of their
 centre

---
 pylib/pc/layers/utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pylib/pc/layers/utils.py b/pylib/pc/layers/utils.py
index 4230fc5..93c3762 100644
--- a/pylib/pc/layers/utils.py
+++ b/pylib/pc/layers/utils.py
@@ -91,10 +91,10 @@ def _hexagon(scale, z_shift):
   phi = np.sqrt(3) / 2
   points = [[0, 1, 0],
             [0, -1, 0],
-            [0.5, phi, 0],
-            [0.5, -phi, 0],
-            [-0.5, phi, 0],
-            [-0.5, -phi, 0]]
+            [phi, 0.5, 0],
+            [phi, -0.5, 0],
+            [-phi, 0.5, 0],
+            [-phi, -0.5, 0]]
   points = np.array(points) * scale
   points[:, 2] += z_shift
   return points
@@ -203,15 +203,15 @@ def spherical_kernel_points(num_points, rotate=True, name=None):
                           [-phi, 0, -1]] / np.sqrt(1 + phi**2),
                          dtype=tf.float32)
   elif num_points == 15:
-    hex1 = _hexagon(0.5, np.sqrt(3) / 2)
-    hex2 = _hexagon(-0.5, np.sqrt(3) / 2)[:,[1, 0, 2]]  # rotated 90 deg in xy
+    hex1 = _hexagon(np.sqrt(3) / 2, 0.5)
+    hex2 = _hexagon(np.sqrt(3) / 2, -0.5)[:, [1, 0, 2]]  # rotated 90 deg in xy
     points = np.concatenate(([[0, 0, 0], [0, 0, 1], [0, 0, -1]], hex1, hex2),
                             axis=0)
     points = tf.Variable(points, dtype=tf.float32)
   elif num_points == 18:
     penta1 = _pentagon(1 / np.sqrt(2), 0.5)
     penta2 = -_pentagon(1.0, 0.0) # flipped in xy
-    penta3 = _pentagon(-1 / np.sqrt(2), 0.5)
+    penta3 = _pentagon(1 / np.sqrt(2), -0.5)
     points = np.concatenate(([[0, 0, 0], [0, 0, 1], [0, 0, -1]],
                              penta1, penta2, penta3),
                             axis=0)
-- 
2.43.0

