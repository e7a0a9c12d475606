From bed8d5d71c022a54dfcc83a1899474c241aaf4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:25 +0000
Subject: [PATCH 01/48] fix: traverse datasets that have an empty level

Looking up, counting or checking children failed with an AttributeError
when one of the dimensions had no rows.
---
 glmtools/io/traversal.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/glmtools/io/traversal.py b/glmtools/io/traversal.py
index 6c0e0e3..a3f8700 100644
--- a/glmtools/io/traversal.py
+++ b/glmtools/io/traversal.py
@@ -93,6 +93,10 @@ class OneToManyTraversal(object):
             self.entity_groups_by_parent[parent_var] = entity_grouper
         self.dataset = dataset
 
+    def _groups(self, grouper):
+        """ Groups of a groupby, which is None where the dimension is empty. """
+        return {} if grouper is None else grouper.groups
+
     def _descend(self):
         """ Iterate from parent to children"""
         yield from zip(self.entity_id_vars, self.parent_id_vars)
@@ -124,7 +128,7 @@ class OneToManyTraversal(object):
         all_counts = []
         for e_var, p_var in self._descend():
             if count_next == True:
-                grouper = self.parent_groups[p_var].groups
+                grouper = self._groups(self.parent_groups[p_var])
                 count = [len(grouper[eid]) if (eid in grouper) else 0
                          for eid in last_entity_ids]
                 last_entity_ids = self.dataset[e_var].data
@@ -213,7 +217,7 @@ class OneToManyTraversal(object):
         prune = False
         for e_var, p_var in self._descend():
             if prune == True:
-                p_group = self.parent_groups[p_var].groups
+                p_group = self._groups(self.parent_groups[p_var])
                 e_iter = (p_group[eid] for eid in last_entity_ids
                           if eid in p_group)
                 e_idx = list(itertools.chain.from_iterable(e_iter))
@@ -233,7 +237,7 @@ class OneToManyTraversal(object):
                 # the need to index along two dimensions at once the first time
                 # through.
                 prune = True
-                e_group = self.entity_groups[e_var].groups
+                e_group = self._groups(self.entity_groups[e_var])
                 e_iter = (e_group[eid] for eid in entity_ids
                           if eid in e_group)
                 e_idx = list(itertools.chain.from_iterable(e_iter))
@@ -257,7 +261,7 @@ class OneToManyTraversal(object):
         # child at the level of entity_id_var
         for e_var, p_var in self._ascend():
             if (prune == True):
-                e_group = self.entity_groups[e_var].groups
+                e_group = self._groups(self.entity_groups[e_var])
                 e_iter = (e_group[eid] for eid in last_entity_ids
                           if eid in e_group)
                 e_idx = list(itertools.chain.from_iterable(e_iter))
@@ -332,11 +336,11 @@ class OneToManyTraversal(object):
             # e.g., group_parent_flash_id
             # Check the entity ID variable and its corresponding parent data for the same set of IDs
             parent_grouper = trav.parent_groups[parent_var]
-            parent_ids = set(parent_grouper.groups.keys())
+            parent_ids = set(trav._groups(parent_grouper).keys())
 
             # e.g., flash_id
             parent_entity_grouper = trav.entity_groups[id_entity_for_parent_var]
-            parent_entity_ids = set(parent_entity_grouper.groups.keys())
+            parent_entity_ids = set(trav._groups(parent_entity_grouper).keys())
 
             # Ensure no replication of IDs at the parent level. There should
             # only be on entity ID for each entity.
-- 
2.43.0


From 1cea6b564b95ef94b01379e0c9ce60771e4cfd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:18 +0000
Subject: [PATCH 02/48] fix: leave out children of entities that do not exist
 when reducing

Reducing to an id that is absent kept children that refer to it.
---
 glmtools/io/traversal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/traversal.py b/glmtools/io/traversal.py
index a3f8700..71e35e8 100644
--- a/glmtools/io/traversal.py
+++ b/glmtools/io/traversal.py
@@ -241,10 +241,11 @@ class OneToManyTraversal(object):
                 e_iter = (e_group[eid] for eid in entity_ids
                           if eid in e_group)
                 e_idx = list(itertools.chain.from_iterable(e_iter))
-                last_entity_ids = entity_ids # == dataset[e_var].data
                 if len(e_idx) == 0:
                     # xarray doesn't accept an empty array as a valid index
                     e_idx = slice(0, 0)
+                # Only the entities that exist have children to keep.
+                last_entity_ids = dataset[e_var].data[e_idx]
                 # Interesting: what if we have a multidimensional
                 # hierarchical cluster id? Can't index by dims[0] alone.
                 indexer[dataset[e_var].dims[0]] = e_idx
-- 
2.43.0


From 1f03bd25032603a23f106917777274b325ea37e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:53 +0000
Subject: [PATCH 03/48] fix: make inconsistent trees fully consistent on open

Groups without events, and groups and events whose parent is missing,
were kept, so opening such a file failed or gave wrong counts.
---
 glmtools/io/glm.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index ac65fe6..5ef3e39 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -208,14 +208,17 @@ class GLMDataset(OneToManyTraversal):
                 if orphan_child_count > 0: tree_problems = True
             if tree_problems:
                 # Make a self consistent tree by pruning the tree to just the
-                # valid flash IDs, which has the side effect of making
-                # everything else self-consistent.
+                # events whose group and flash are both present, which has the
+                # side effect of making everything else self-consistent.
                 log.warning('Fixing inconsistent parent-child IDs '
                             'in file {0}'.format(filename))
-                flashes_with_no_groups = entity_var_stats['flash_id'][2]
-                unq_fl_id = set(list(dataset.group_parent_flash_id.data))
-                good_fl_id = list(unq_fl_id - flashes_with_no_groups)
-                ds_fixed = test_trav.reduce_to_entities('flash_id', good_fl_id)
+                gr_has_flash = np.isin(dataset.group_parent_flash_id.data,
+                                       dataset.flash_id.data)
+                good_gr_id = dataset.group_id.data[gr_has_flash]
+                ev_has_group = np.isin(dataset.event_parent_group_id.data,
+                                       good_gr_id)
+                good_ev_id = dataset.event_id.data[ev_has_group]
+                ds_fixed = test_trav.reduce_to_entities('event_id', good_ev_id)
                 dataset = ds_fixed
 
         self._filename = filename
-- 
2.43.0


From ccb53ec6f5a1fd25f7e3d73f6700f68125c97c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:54 +0000
Subject: [PATCH 04/48] fix: infer the lightning ellipsoid from the product
 time

datetime() does not accept xarray values, so opening a file without an
explicit ellipsoid revision failed.
---
 glmtools/io/glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 5ef3e39..2180ad8 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -555,8 +555,8 @@ class GLMDataset(OneToManyTraversal):
         if ellipse_rev < 0:
             log.info("Inferring lightning ellipsoid from GLM product time")
             pt = self.dataset.product_time.dt
-            date = datetime(pt.year, pt.month, pt.day,
-                            pt.hour, pt.minute, pt.second)
+            date = datetime(int(pt.year), int(pt.month), int(pt.day),
+                            int(pt.hour), int(pt.minute), int(pt.second))
             ellipse_rev = ltg_ellpse_rev(date)
         log.info("Using lightning ellipsoid rev {0}".format(ellipse_rev))
 
-- 
2.43.0


From 06e546160619add0085a8f796430f3f10ad12b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:54 +0000
Subject: [PATCH 05/48] fix: allow flash selection without the event location
 check

The list of flashes with good events was used even when it had not been
made.
---
 glmtools/io/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 2180ad8..f75cdc5 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -531,7 +531,7 @@ class GLMDataset(OneToManyTraversal):
             # log.debug("Subsetting bad events with override ranges {0}".format(
                 # check_event_kw))
             good_event_flash_ids = self._check_event_xy(**check_event_kw)
-        flash_ids = list(set(flash_ids) & set(good_event_flash_ids))
+            flash_ids = list(set(flash_ids) & set(good_event_flash_ids))
         return self.get_flashes(flash_ids)
 
     def get_flashes(self, flash_ids):
-- 
2.43.0


From 78a5de78c4edc4593fe620b480205a32db85f81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:54 +0000
Subject: [PATCH 06/48] fix: look up the ellipsoid radii for a date

The function called a name that does not exist.
---
 glmtools/io/lightning_ellipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/lightning_ellipse.py b/glmtools/io/lightning_ellipse.py
index fa0a469..1b7aa20 100644
--- a/glmtools/io/lightning_ellipse.py
+++ b/glmtools/io/lightning_ellipse.py
@@ -62,7 +62,7 @@ def ltg_ellps_radii(date):
     Returns: re_ltg_ellps, rp_ltg_ellps (meters): equatorial and polar radii
         of the lightning ellipsoid, respectively.
     """
-    re_ltg_ellps, rp_ltg_ellps = lightning_ellipse_rev[ltg_ellps_rev(date)]
+    re_ltg_ellps, rp_ltg_ellps = lightning_ellipse_rev[ltg_ellpse_rev(date)]
     return re_ltg_ellps, rp_ltg_ellps
 
 def ltg_ellps_lon_lat_to_fixed_grid(lon, lat, sat_lon, ellipse_rev,
-- 
2.43.0


From b1330cacb973fb6add4378b503aafdae2dd835ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:31 +0000
Subject: [PATCH 07/48] fix: round when recovering unsigned integers

Truncation put about a third of the decoded values one step too low.
---
 glmtools/io/glm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index f75cdc5..adcc911 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -61,7 +61,9 @@ def fix_unsigned(data, is_xarray=True):
     dtype = data.encoding['dtype'].str.replace('i', 'u')
     scale_factor = data.encoding['scale_factor']
     add_offset = data.encoding['add_offset']
-    unscale = ((data - add_offset)/scale_factor).data.astype(dtype).astype('float64')
+    # Round, so that inexact unscaling doesn't fall to the next lower integer
+    unscale = np.round((data - add_offset)/scale_factor).data
+    unscale = unscale.astype('int64').astype(dtype).astype('float64')
     fixed = unscale * scale_factor + add_offset
     return fixed
 
@@ -98,8 +100,8 @@ def fix_event_locations(event_lats, event_lons, is_xarray=False):
 
     if is_xarray==True:
         # unscale the data
-        unscale_lat = ((event_lats - lat_fov[0])/scale_factor).data.astype('int32')
-        unscale_lon = ((event_lons - lon_fov[0])/scale_factor).data.astype('int32')
+        unscale_lat = np.round((event_lats - lat_fov[0])/scale_factor).data.astype('int32')
+        unscale_lon = np.round((event_lons - lon_fov[0])/scale_factor).data.astype('int32')
         event_lats = unscale_lat
         event_lons = unscale_lon
     else: # is NetCDF Variable
-- 
2.43.0


From 017d7a9127e7e680b4bf981e9efec5f93556d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:34 +0000
Subject: [PATCH 08/48] fix: read every unsigned event location code

The stored code that equals the default fill value was masked and so not
converted to unsigned.
---
 glmtools/io/glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index adcc911..1f596e2 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -105,8 +105,8 @@ def fix_event_locations(event_lats, event_lons, is_xarray=False):
         event_lats = unscale_lat
         event_lons = unscale_lon
     else: # is NetCDF Variable
-        event_lons.set_auto_scale(False)
-        event_lats.set_auto_scale(False)
+        event_lons.set_auto_maskandscale(False)
+        event_lats.set_auto_maskandscale(False)
         event_lons = event_lons[:].astype('int32')
         event_lats = event_lats[:].astype('int32')
 
-- 
2.43.0


From e601b35bd6fec950ffc2813916c38bbb02b3bcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:02 +0000
Subject: [PATCH 09/48] fix: give every discretized location its own id

The last column of one row shared its id with the first column of the
next row.
---
 glmtools/io/glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 1f596e2..f4de76e 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -736,5 +736,6 @@ def discretize_2d_location(x, y, scale, x_range, y_range, int_type='uint64'):
     discr_y_max = np.array((y_range[1]-y_offset)/scale, dtype=int_type)
     x_discr = ((x - x_offset) / scale).astype(int_type)
     y_discr = ((y - y_offset) / scale).astype(int_type)
-    xy_discr = x_discr + y_discr*discr_x_max
+    # discr_x_max is itself a possible value of x_discr
+    xy_discr = x_discr + y_discr*(discr_x_max+1)
     return xy_discr
-- 
2.43.0


From 677f7224b1059a9d52d4d22597745f8edd5c2711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:38 +0000
Subject: [PATCH 10/48] fix: correct times of files that also need tree repair

The times were read again from the file after rows had been pruned, so
sizes did not match and opening failed.
---
 glmtools/io/glm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index f4de76e..0f412b8 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -197,6 +197,11 @@ class GLMDataset(OneToManyTraversal):
         else:
             dataset = xr.open_dataset(filename)
 
+        if fix_bad_DO07_times:
+            # Needs to happen before rows are pruned, because the times are read
+            # from the file once more.
+            self.dataset = dataset
+            did_fix = self._check_and_fix_missing_unsigned_time(filename)
         if check_tree:
             tree_problems = False
             test_trav = OneToManyTraversal(dataset,
@@ -243,8 +248,6 @@ class GLMDataset(OneToManyTraversal):
         else:
             self.dataset = dataset
 
-        if fix_bad_DO07_times:
-            did_fix = self._check_and_fix_missing_unsigned_time(filename)
         if check_area_units:
             # Check for missing areas (from overflow of the max value
             # allowed by the scale_factor) before ensuring units are always km^2
-- 
2.43.0


From 5d2cb0ee00e2f2f1e8fca3bf9d2f3649da9664a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:31 +0000
Subject: [PATCH 11/48] fix: slice with a given bounding box

A local variable was set only when the box was to be derived from the
polygon.
---
 glmtools/grid/clipping.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 41c298c..8734eef 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -562,9 +562,8 @@ class QuadMeshPolySlicer(object):
         patch_coll.set_array(np.fromiter((0 for p in polys), dtype=float))
         ax1.add_collection(patch_coll)
         """
-        if bbox == True:
-            recalc_bbox = True
-            # else use the bbox that is specified exactly
+        # If bbox isn't True, use the bbox that is specified exactly
+        recalc_bbox = (bbox == True)
 
         poly_arr = [np.asarray(p) for p in polys]
         areas = [np.abs(poly_area(p[:,0], p[:,1])) for p in poly_arr]
-- 
2.43.0


From ae133a6f33eef02acbdc70f88296b985bd91afad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:36 +0000
Subject: [PATCH 12/48] fix: use the unsigned area of mesh cells

The fraction of a cell was negative on a mesh whose first dimension is x.
---
 glmtools/grid/clipping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 8734eef..17691f2 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -172,8 +172,9 @@ class QuadMeshSubset(object):
         log.info('    ... {0} quads in mesh ...'.format(nq))
         self.quads_flat = self.quads.view()
         self.quads_flat.shape = (nq, 4, 2) # flatten the first two dimensions
-        self.quad_areas = vectorized_poly_area(self.quads_flat[:, :, 0],
-                                               self.quads_flat[:, :, 1])
+        # The sign depends on which dimension of the mesh increases with x
+        self.quad_areas = np.abs(vectorized_poly_area(self.quads_flat[:, :, 0],
+                                                      self.quads_flat[:, :, 1]))
         # self.quad_areas = np.abs(np.fromiter(
             # (poly_area(q[:,0], q[:,1]) for q in self.quads_flat),
             # dtype='f8', count=nq))
-- 
2.43.0


From 2d32d1bc1c381d552e8db3c470cbc839a482e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:41 +0000
Subject: [PATCH 13/48] fix: allow a nearest quad lookup to return a single
 quad

With one quad the squeeze removed the dimension that counts quads.
---
 glmtools/grid/clipping.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 17691f2..9d77239 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -266,9 +266,10 @@ class QuadMeshSubset(object):
         """
         dists, quad_x_idx, quad_y_idx = self.query_tree(x)
         # quads = [q for q in self.gen_polys(quad_x_idx, quad_y_idx)]
-        # Squeeze a leading dimension of 1 on x/y_idx and therefore on quads
-        quads = self.quads[quad_x_idx, quad_y_idx, :, :].squeeze()
-        return quads, quad_x_idx.squeeze(), quad_y_idx.squeeze()
+        # Flatten a leading dimension of 1 on x/y_idx and therefore on quads
+        quad_x_idx, quad_y_idx = quad_x_idx.flatten(), quad_y_idx.flatten()
+        quads = self.quads[quad_x_idx, quad_y_idx, :, :]
+        return quads, quad_x_idx, quad_y_idx
 
     def _quads_in_bbox_regular(self, bbox, pad=2):
         """ Assume a perfectly regular grid, with uniform spacing in x and y
-- 
2.43.0


From 2497bf1b163667ab134773adf64f3ed1b9f7fab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:46 +0000
Subject: [PATCH 14/48] fix: find mesh cells under a box that sticks out of the
 mesh

An end of the box that was off the mesh was ignored, which lost cells
near that edge or all of them.
---
 glmtools/grid/clipping.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 9d77239..0d58237 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -328,26 +328,21 @@ class QuadMeshSubset(object):
         # idxx = np.digitize((-1, 0, 0.5, 2.5, 9, 10), aedge, right=True) - 1
         # valid = (idxx>=0) & (idxx < actr.shape[0])
         # print(valid) -> [False, False,  True,  True,  True, False]
+        # Indices beyond the ends of the mesh mark a bbox that sticks out of it,
+        # and the part that is on the mesh is kept.
         idxx = np.digitize(xlim, self.X_edge1d, right=True) - 1
         idxy = np.digitize(ylim, self.Y_edge1d, right=True) - 1
-        validx = (idxx >= 0) & (idxx < self.N_X_ctr)
-        validy = (idxy >= 0) & (idxy < self.N_Y_ctr)
-        idxx = idxx[validx]
-        idxy = idxy[validy]
         # print('indices x', idxx, self.X_edge1d.min(), self.X_edge1d.max())
         # print('indices y', idxy, self.Y_edge1d.min(), self.Y_edge1d.max())
-        if (len(idxx) > 0) & (len(idxy) > 0):
-            xi_min = max(idxx.min() - pad, 0)
-            xi_max = min(idxx.max() + 1 + pad, self.N_X_ctr)
-            yi_min = max(idxy.min() - pad, 0)
-            yi_max = min(idxy.max() + 1 + pad, self.N_Y_ctr)
-            sl_quad = [0, 0]
-            sl_quad_xi = slice(xi_min, xi_max)
-            sl_quad_yi = slice(yi_min, yi_max)
-            sl_quad[self.X_increasing_dim] = self.Xi1d[sl_quad_xi]
-            sl_quad[self.Y_increasing_dim] = self.Yi1d[sl_quad_yi]
-        else:
-            sl_quad = [self.Xi1d[0:0], self.Yi1d[0:0]]
+        xi_min = max(idxx.min() - pad, 0)
+        xi_max = min(idxx.max() + 1 + pad, self.N_X_ctr)
+        yi_min = max(idxy.min() - pad, 0)
+        yi_max = min(idxy.max() + 1 + pad, self.N_Y_ctr)
+        sl_quad = [0, 0]
+        sl_quad_xi = slice(xi_min, xi_max)
+        sl_quad_yi = slice(yi_min, yi_max)
+        sl_quad[self.X_increasing_dim] = self.Xi1d[sl_quad_xi]
+        sl_quad[self.Y_increasing_dim] = self.Yi1d[sl_quad_yi]
         q_shp = np.ones((sl_quad[0].shape[0], sl_quad[1].shape[0]), dtype=int)
         vals = ((sl_quad[0][:,None]*q_shp).flatten(),
                 (sl_quad[1][None,:]*q_shp).flatten())
-- 
2.43.0


From 01baa9c95105b5a4b8c24503d90649dfab0cc1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:01 +0000
Subject: [PATCH 15/48] fix: find mesh cells that are larger than the bounding
 box

Only cells with a corner inside the box were found.
---
 glmtools/grid/clipping.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 0d58237..1ff6855 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -373,15 +373,10 @@ class QuadMeshSubset(object):
         # centers are outside of the bbox
         # goodx = (self.X_ctr >= xlim[0]) & (self.X_ctr <= xlim[1])
         # goody = (self.Y_ctr >= ylim[0]) & (self.Y_ctr <= ylim[1])
-        goodx = np.zeros(self.quads.shape[0:2], dtype=bool)
-        goody = np.zeros(self.quads.shape[0:2], dtype=bool)
-
-        for qi in range(4):
-            # loop over the quad corners, keeping quads with at least one corner in bounds
-            goodx |= ((self.quads[:,:,qi,0] >= xlim[0]) &
-                      (self.quads[:,:,qi,0] <= xlim[1]))
-            goody |= ((self.quads[:,:,qi,1] >= ylim[0]) &
-                      (self.quads[:,:,qi,1] <= ylim[1]))
+        # Also keep quads that extend past the bbox on both sides.
+        quad_x, quad_y = self.quads[:,:,:,0], self.quads[:,:,:,1]
+        goodx = (quad_x.max(axis=2) >= xlim[0]) & (quad_x.min(axis=2) <= xlim[1])
+        goody = (quad_y.max(axis=2) >= ylim[0]) & (quad_y.min(axis=2) <= ylim[1])
         quad_x_idx, quad_y_idx = np.where((goodx & goody))
         quads = self.quads[quad_x_idx, quad_y_idx, :, :]
         return quads, quad_x_idx, quad_y_idx
-- 
2.43.0


From 0d7bcdb56eb5beffa2aaba06974025ebcbeef57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:37 +0000
Subject: [PATCH 16/48] fix: grid the whole footprint of wide events

Only cells within two of the event center were searched, so the outermost
part of a wide event was lost, with its energy.
---
 glmtools/io/mimic_lma.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index f4bd3d5..0fd21fd 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -187,7 +187,8 @@ def fast_fixed_grid_read_chunk(flash_data, target=None, base_date=None, nadir_lo
     slicer = QuadMeshPolySlicer(mesh)
     # --- Split up the events ---
     log.info("Starting to split events")
-    chopped_polys, poly_areas = slicer.slice(event_polys)
+    # Events may be wider than the neighborhood that is searched without bbox.
+    chopped_polys, poly_areas = slicer.slice(event_polys, bbox=True)
     log.info("Sliced all events")
     split_event_polys, split_event_properties = split_event_data(
         chopped_polys, poly_areas, slicer, event_ids=event_ids)
-- 
2.43.0


From f61fdd365af704d95b022c725a7bc7c261c5f4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:36 +0000
Subject: [PATCH 17/48] fix: read lightning that lies entirely off the grid

---
 glmtools/io/mimic_lma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 0fd21fd..ba56a50 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -829,7 +829,7 @@ def _fake_lma_events_from_split_glm_lutevents(split_events, basedate):
     # fine when accumulating, but when we want the minimum value on the target
     # grid we need to pick that single value. Therefore, we group by target
     # grid location and find the minimum
-    xi_max = split_events.split_event_mesh_x_idx.data.max()
+    xi_max = split_events.split_event_mesh_x_idx.data.max(initial=0)
     xyidx = (split_events.split_event_mesh_y_idx * (xi_max+1) +
                 split_events.split_event_mesh_x_idx)
     split_events['xyidx'] = xyidx
-- 
2.43.0


From 1062ae984f93430208af4cabbea3e843bbbfaf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:59 +0000
Subject: [PATCH 18/48] fix: write images when no file has any lightning

---
 glmtools/grid/make_grids.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 1836557..7e7126a 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -894,6 +894,9 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
             process_flash_kwargs_ij))
         sys.stdout.flush()
         glm = GLMDataset(filename, ellipse_rev=ellipse_rev)
+        if not saved_first_file_metadata:
+            gridder.first_file_attrs = dict(glm.dataset.attrs)
+            saved_first_file_metadata = True
         # Pre-load the whole dataset, as recommended by the xarray docs.
         # This saves an absurd amount of time (factor of 80ish) in
         # grid.split_events.replicate_and_split_events
@@ -902,9 +905,6 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
             # data from an empty dimension.
             glm.dataset.load()
 
-            if not saved_first_file_metadata:
-                gridder.first_file_attrs = dict(glm.dataset.attrs)
-                saved_first_file_metadata = True
             gridder.process_flashes(glm, **process_flash_kwargs_ij)
         else:
             log.info("Skipping {0} - number of events is 0".format(filename))
-- 
2.43.0


From 4d0f649fb46122306b8b922fefe7669d7bacefe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:18 +0000
Subject: [PATCH 19/48] fix: do not alter the accumulated grids while writing
 images

Writing divided the area grids and raised small densities to the smallest
encodable value in place. The averages used the raised densities, and a
second write divided again.
---
 glmtools/io/imagery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 6f2c4bd..ba405e0 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -531,7 +531,7 @@ def write_goes_imagery(gridder, outpath='./{dataset_name}', pad=None, scale_and_
         xenc, yenc = dataset.x.encoding, dataset.y.encoding
 
         for i, (grid_allt, field_name, description, units, outformat) in enumerate(file_iter):
-            grid = grid_allt[x_slice,y_slice,ti]
+            grid = grid_allt[x_slice,y_slice,ti].copy()
             if i in self.divide_grids:
                 denom = self.outgrids[self.divide_grids[i]][x_slice,y_slice,ti]
                 zeros = (denom == 0) | (grid == 0)
-- 
2.43.0


From a129dbdcd0d4dd5c257cad0e934f450b364ddf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:08 +0000
Subject: [PATCH 20/48] fix: count the cells of a range without truncating

The width over the spacing often comes out just below a whole number, so
a tile was given one cell less, or none at all.
---
 glmtools/grid/make_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 7e7126a..4607642 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -627,7 +627,7 @@ def subdivide_bnd(bnd, delta, s=8):
     """
     w = bnd[1] - bnd[0]
     # Number of elements
-    n = int(w/delta)
+    n = int(round(w/delta))
     # Numbr of elements in each segment
     log.debug((n, s))
     dn = int(n/s)
-- 
2.43.0


From c5068efae03bf563819014352f9a576868416cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:08 +0000
Subject: [PATCH 21/48] fix: keep the output options for every tile

The options were removed from a dictionary shared by all tiles, so every
tile after the first was written with scaled integers.
---
 glmtools/grid/make_grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 4607642..a9a781a 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -600,8 +600,8 @@ class GLMlutGridder(GLMGridder):
                     output_writer_3d = None,
                     output_filename_prefix = None, output_kwargs={}):
 
-        pad = output_kwargs.pop('pad', None)
-        scale_and_offset = output_kwargs.pop('scale_and_offset', True)
+        pad = output_kwargs.get('pad', None)
+        scale_and_offset = output_kwargs.get('scale_and_offset', True)
 
         from glmtools.io.imagery import write_goes_imagery
         all_outfiles = write_goes_imagery(self, outpath=outpath, pad=pad,
-- 
2.43.0


From c103dd041177b96d8b37666a527e2391a5158b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:08 +0000
Subject: [PATCH 22/48] fix: report the image files written for each tile

---
 glmtools/grid/make_grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index a9a781a..9e793c2 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -919,7 +919,7 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
         # Used by GLMlutGridder.write_grids, but not the others.
         out_kwargs_ij['output_kwargs']['pad'] = preprocess_out.get_pad_slices()
 
-        output = gridder.write_grids(**out_kwargs_ij)
+        outfilenames = gridder.write_grids(**out_kwargs_ij) or []
         
         # Two things can happen here. If the lmatools CF NetCDF writer is used
         # (as it would be when using GLMGridder)
@@ -931,7 +931,7 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
         # to resolve this inconsistency with a rearchitecture of how the
         # subgrids are handled - avoiding the hacky output preprocessor in
         # all cases.
-        outfilenames = preprocess_out.write_all()
+        outfilenames = outfilenames + preprocess_out.write_all()
     else:
         outfilenames = gridder.write_grids(**out_kwargs_ij)
 
-- 
2.43.0


From 2d88f836b271831f396ffc8e25c0ed701db1a33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:08 +0000
Subject: [PATCH 23/48] fix: infer the ellipse revision when none is given to
 the gridding function

---
 glmtools/grid/make_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 9e793c2..7680d5d 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -862,7 +862,7 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
     """
 
     subgridij, kwargsij, process_flash_kwargs_ij, out_kwargs_ij, pads = subgrid
-    ellipse_rev = process_flash_kwargs_ij.pop('ellipse_rev')
+    ellipse_rev = process_flash_kwargs_ij.pop('ellipse_rev', -1)
 
     # Eventually, we want to trim off n_x/y_pad from each side of the grid
     # n_x_pad, n_y_pad, x_pad, y_pad = pads
-- 
2.43.0


From 6dbcb62e6dfd919555d3bd0c13173b84bfbb87b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:08 +0000
Subject: [PATCH 24/48] fix: write the images of each tile to a separate file

All tiles got the same name, so each one replaced the one before.
---
 glmtools/grid/make_grids.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 7680d5d..65e00ca 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -7,6 +7,7 @@ log = logging.getLogger(__name__)
 log.addHandler(logging.NullHandler())
 
 import itertools
+import os
 from functools import partial
 from concurrent.futures import ProcessPoolExecutor
 import numpy as np
@@ -696,6 +697,13 @@ def subdivided_fixed_grid(kwargs, process_flash_kwargs, out_kwargs, s=1,
         outfile_prefix_base_ij += '{0:02d}-{1:02d}'.format(i,j)
         out_kwargs_ij = out_kwargs.copy()
         out_kwargs_ij['output_filename_prefix'] = outfile_prefix_base_ij
+        if (s > 1) and ('clip_events' in process_flash_kwargs):
+            # The image writer doesn't use the prefix, and the name it makes
+            # is the same for every tile, so put each tile in a directory.
+            outdir, outname = os.path.split(
+                out_kwargs.get('outpath', './{dataset_name}'))
+            out_kwargs_ij['outpath'] = os.path.join(
+                outdir, '{0:02d}-{1:02d}'.format(i,j), outname)
 
         # out_kwargs_ij['output_writer_cache'] = out_kwargs_ij['output_writer']
         preprocess_out = GridOutputPreprocess(
-- 
2.43.0


From ecb75a4094eaa96a63d722b91a6c7546278e44be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:24 +0000
Subject: [PATCH 25/48] fix: do not add the tile padding to the caller's output
 options

---
 glmtools/grid/make_grids.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 65e00ca..6ad742e 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -922,10 +922,10 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
 
     preprocess_out = out_kwargs_ij.pop('preprocess_out', None)
     if preprocess_out: # in out_kwargs_ij:
-        if 'output_kwargs' not in out_kwargs_ij:
-            out_kwargs_ij['output_kwargs'] = {}
         # Used by GLMlutGridder.write_grids, but not the others.
-        out_kwargs_ij['output_kwargs']['pad'] = preprocess_out.get_pad_slices()
+        out_kwargs_ij['output_kwargs'] = dict(
+            out_kwargs_ij.get('output_kwargs', {}),
+            pad=preprocess_out.get_pad_slices())
 
         outfilenames = gridder.write_grids(**out_kwargs_ij) or []
         
-- 
2.43.0


From ee166dc907e88323e1a99a6ede8f5e38e765c5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:16 +0000
Subject: [PATCH 26/48] fix: give tenths of a second in image names

The digit for tenths was always zero, so frames shorter than a second got
the same name and replaced one another.
---
 glmtools/io/imagery.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index ba405e0..3a5972e 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -231,6 +231,11 @@ def get_goes_imager_fixedgrid_coords(x, y, resolution='2km at nadir',
     return x_coord, y_coord
 
 
+def filename_time(t):
+    """ Format a datetime as in GOES-R filenames, where the last digit gives
+        tenths of a second. """
+    return t.strftime('%Y%j%H%M%S') + str(t.microsecond//100000)
+
 def get_glm_global_attrs(start, end, platform, slot, instrument, scene_id,
         resolution, timeline, prod_env, prod_src, prod_site, ):
     """
@@ -270,8 +275,8 @@ def get_glm_global_attrs(start, end, platform, slot, instrument, scene_id,
 
     # "OR_GLM-L2-GLMC-M3_G16_s20181011100000_e20181011101000_c20181011124580.nc
     dataset_name = "OR_GLM-L2-GLM{5}-{0}_{1}_s{2}_e{3}_c{4}.nc".format(
-        modes[timeline], platform, start.strftime('%Y%j%H%M%S0'),
-        end.strftime('%Y%j%H%M%S0'), created.strftime('%Y%j%H%M%S0'),
+        modes[timeline], platform, filename_time(start),
+        filename_time(end), filename_time(created),
         scenes[scene_id]
     )
 
-- 
2.43.0


From 7eef48eded97da8a9f82d1cce6a8a6dfeb67f75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:16 +0000
Subject: [PATCH 27/48] fix: give the creation time of images in UTC

The local time was labelled as UTC.
---
 glmtools/io/imagery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 3a5972e..7f34928 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -1,5 +1,5 @@
 import os, itertools
-from datetime import datetime, timedelta
+from datetime import datetime, timedelta, timezone
 
 import numpy as np
 import xarray as xr
@@ -258,7 +258,7 @@ def get_glm_global_attrs(start, end, platform, slot, instrument, scene_id,
 
     Returns: meta, a dictionary of metadata attributes.
     """
-    created = datetime.now()
+    created = datetime.now(timezone.utc).replace(tzinfo=None)
     modes = {'ABI Mode 3':'M3'}
 
     # For use in the dataset name / filename
-- 
2.43.0


From f92c334f5038f4dab6f935406d7d771c5540e11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:16 +0000
Subject: [PATCH 28/48] fix: accept an output template without a directory

---
 glmtools/io/imagery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 7f34928..eacdbed 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -527,7 +527,7 @@ def write_goes_imagery(gridder, outpath='./{dataset_name}', pad=None, scale_and_
         outfile = outpath.format(start_time=start, end_time=end,
                                  dataset_name=dataset.attrs['dataset_name'])
         enclosing_dir = os.path.dirname(outfile)
-        if os.path.exists(enclosing_dir) == False:
+        if enclosing_dir and os.path.exists(enclosing_dir) == False:
             os.makedirs(enclosing_dir)
 
         # Adding a new variable to the dataset below clears the coord attrs
-- 
2.43.0


From 58af9c6419d9a581e5de4a59d61cf3d1aebf368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:16 +0000
Subject: [PATCH 29/48] fix: round the cell area given in units

Truncation labelled the 10 km grid with 78399 instead of 78400 square
microradians.
---
 glmtools/grid/make_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 6ad742e..446fe20 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -293,7 +293,7 @@ class GLMGridder(FlashGridder):
         if self.proj_name=='latlong':
             density_units = "grid"
         elif self.proj_name == 'geos':
-            density_units = 'nominal {0:7d} microradian^2'.format(int(dx*dy*1e12))
+            density_units = 'nominal {0:7d} microradian^2'.format(int(round(dx*dy*1e12)))
         else:
             density_units = "{0:5.1f} km^2".format(dx*spatial_scale_factor * dy*spatial_scale_factor).lstrip()
         time_units = "{0:5.1f} min".format(self.frame_interval/60.0).lstrip()
-- 
2.43.0


From 4626675ea741cfa4001cb754c67b7666a40e9bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:51 +0000
Subject: [PATCH 30/48] fix: aggregate over the whole dataset when no range is
 given

Current pandas does not make a timestamp of a zero-dimensional array.
---
 glmtools/io/imagery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index eacdbed..5f78d71 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -606,8 +606,8 @@ def aggregate(glm, minutes, start_end=None):
         start = start_end[0]
         end = start_end[1]
     else:
-        start = pd.Timestamp(glm['time'].min().data).to_pydatetime()
-        end = pd.Timestamp(glm['time'].max().data).to_pydatetime() + dt
+        start = pd.Timestamp(glm['time'].min().data[()]).to_pydatetime()
+        end = pd.Timestamp(glm['time'].max().data[()]).to_pydatetime() + dt
         # The lines below might be necessary replacements for a future version
         # start = pd.to_datetime(glm['time'].min().data).to_pydatetime()
         # end = pd.to_datetime(glm['time'].max().data).to_pydatetime() + dt
-- 
2.43.0


From 5a745ad4b8aea7b9ef623ae9627a3c75cbd932a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:54 +0000
Subject: [PATCH 31/48] fix: start aggregation intervals with the image at
 their left edge

The first image was left out and every other image on an edge was put in
the interval before.
---
 glmtools/io/imagery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 5f78d71..03a4685 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -634,8 +634,8 @@ def aggregate(glm, minutes, start_end=None):
     sum_data['total_group_area'] = glm.average_flash_area*glm.flash_extent_density
 
     t_bins = [start + dt*i for i in range(int(duration/dt)+1)]
-    t_groups_sum = sum_data.groupby_bins('time', bins=t_bins)
-    t_groups_min = min_data.groupby_bins('time', bins=t_bins)
+    t_groups_sum = sum_data.groupby_bins('time', bins=t_bins, right=False)
+    t_groups_min = min_data.groupby_bins('time', bins=t_bins, right=False)
 
     aggregated_min = t_groups_min.min(dim='time', keep_attrs=True, skipna=True)
 
-- 
2.43.0


From 34b9fd411c54bea1c3f79190dae37cfd09cf03cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:54 +0000
Subject: [PATCH 32/48] fix: aggregate the group area from the group fields

---
 glmtools/io/imagery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 03a4685..e47acaa 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -631,7 +631,7 @@ def aggregate(glm, minutes, start_end=None):
 
 
     sum_data['total_flash_area'] = glm.average_flash_area*glm.flash_extent_density
-    sum_data['total_group_area'] = glm.average_flash_area*glm.flash_extent_density
+    sum_data['total_group_area'] = glm.average_group_area*glm.group_extent_density
 
     t_bins = [start + dt*i for i in range(int(duration/dt)+1)]
     t_groups_sum = sum_data.groupby_bins('time', bins=t_bins, right=False)
-- 
2.43.0


From f74de65e172f6e6db1b895dd0fb6adecc27c441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:27 +0000
Subject: [PATCH 33/48] fix: set the coordinates of converted text data

xarray no longer changes a dataset in place.
---
 glmtools/io/convert_lcfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/convert_lcfa.py b/glmtools/io/convert_lcfa.py
index 4fb4ae5..663ec63 100644
--- a/glmtools/io/convert_lcfa.py
+++ b/glmtools/io/convert_lcfa.py
@@ -149,7 +149,7 @@ def merge_dataframes_to_xarray(flashes, groups, events):
     flx = flashes.to_xarray()
     grx = groups.to_xarray()
     egf = evx.merge(grx).merge(flx)
-    egf.set_coords(nc_coords, inplace=True)
+    egf = egf.set_coords(nc_coords)
     return egf
 
 def main(infile, outfile):
-- 
2.43.0


From 072f40f0b184084dd6a3f2a12bb6d522dc62ca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:26 +0000
Subject: [PATCH 34/48] fix: count the points of each flash and group
 separately in tables

---
 glmtools/io/mimic_lma.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index ba56a50..c1ba029 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -662,7 +662,7 @@ def _fake_lma_from_glm_flashes(flash_data, basedate,
     flash_np['start'] = t_start
     flash_np['duration'] = t_end-t_start
     flash_np['flash_id'] = flash_data.flash_id.data
-    flash_np['n_points'] = flash_data.number_of_events.shape[0]
+    flash_np['n_points'] = flash_data.flash_child_event_count.data
 
     # Fake the altitude data
     event_np['alt'] = 0.0
@@ -727,7 +727,7 @@ def _fake_lma_from_glm_groups(flash_data, basedate,
     flash_np['start'] = t_start
     flash_np['duration'] = t_end-t_start
     flash_np['flash_id'] = flash_data.group_id.data
-    flash_np['n_points'] = flash_data.number_of_events.shape[0]
+    flash_np['n_points'] = flash_data.group_child_event_count.data
 
     # Fake the altitude data
     event_np['alt'] = 0.0
@@ -793,7 +793,7 @@ def _fake_lma_from_glm_events(flash_data, basedate,
     flash_np['start'] = t_start
     flash_np['duration'] = t_end-t_start
     flash_np['flash_id'] = flash_data.event_id.data
-    flash_np['n_points'] = flash_data.number_of_events.shape[0]
+    flash_np['n_points'] = 1
 
     # Fake the altitude data
     event_np['alt'] = 0.0
@@ -906,7 +906,7 @@ def _fake_lma_from_glm_lutflashes(flash_data, basedate):
     flash_np['start'] = t_start
     flash_np['duration'] = t_end-t_start
     flash_np['flash_id'] = flash_data.flash_id.data
-    flash_np['n_points'] = flash_data.number_of_events.shape[0]
+    flash_np['n_points'] = flash_data.flash_child_event_count.data
 
     # Fake the altitude data
     flash_np['ctr_z'] = 0.0
@@ -929,7 +929,7 @@ def _fake_lma_from_glm_lutgroups(flash_data, basedate):
     flash_np['start'] = t_start
     flash_np['duration'] = t_end-t_start
     flash_np['flash_id'] = flash_data.group_id.data
-    flash_np['n_points'] = flash_data.number_of_events.shape[0]
+    flash_np['n_points'] = flash_data.group_child_event_count.data
 
     # Fake the altitude data
     flash_np['ctr_z'] = 0.0
-- 
2.43.0


From f876cc8d6b4ad0b74bc8daf0dc77596095002fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:26 +0000
Subject: [PATCH 35/48] fix: join the tables of all chunks from a list

---
 glmtools/io/mimic_lma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index c1ba029..305953b 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1050,8 +1050,8 @@ class GLMncCollection(LMAh5Collection):
                                 lon_range=self.lon_range,
                                 lat_range=self.lat_range,
                                 clip_events=False)
-        ev_chunks = (d['flash'][0] for d in fake_lma)
-        fl_chunks = (d['flash'][1] for d in fake_lma)
+        ev_chunks = [d['flash'][0] for d in fake_lma]
+        fl_chunks = [d['flash'][1] for d in fake_lma]
         events, flashes = np.hstack(ev_chunks), np.hstack(fl_chunks)
         log.info('data from {0}'.format(fname))
         return events, flashes
-- 
2.43.0


From d8fb15b844eeaa800ecde875859bb751b2b11999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:04 +0000
Subject: [PATCH 36/48] fix: index files of a collection by a datetime

---
 glmtools/io/mimic_lma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 305953b..71015d0 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1030,7 +1030,7 @@ class GLMncCollection(LMAh5Collection):
         glm = GLMDataset(fname, calculate_parent_child=False)
         # Get the time, using 'seconds' resolution because GLM files are
         # produced on 20 s boundaries (or any number of even seconds)
-        t_start = glm.dataset.product_time.data.astype('M8[s]').astype('O')
+        t_start = glm.dataset.product_time.data.astype('M8[s]').item()
         # In the LMA API, we track the table name in the H5 file that goes
         # with the time. No such thing exists for GLM data.
         self._time_lookup[t_start] = (fname, None)
-- 
2.43.0


From 2d633279a61d841dab3be2cfd3ea23b319d91278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:39 +0000
Subject: [PATCH 37/48] fix: give empty tables for files without selected
 flashes

---
 glmtools/io/mimic_lma.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 71015d0..c2f2fda 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1050,8 +1050,11 @@ class GLMncCollection(LMAh5Collection):
                                 lon_range=self.lon_range,
                                 lat_range=self.lat_range,
                                 clip_events=False)
-        ev_chunks = [d['flash'][0] for d in fake_lma]
-        fl_chunks = [d['flash'][1] for d in fake_lma]
+        # Empty tables go first, so that a file without flashes has tables too.
+        ev_chunks = [np.empty(0, dtype=event_dtype)]
+        fl_chunks = [np.empty(0, dtype=flash_dtype)]
+        ev_chunks.extend(d['flash'][0] for d in fake_lma)
+        fl_chunks.extend(d['flash'][1] for d in fake_lma)
         events, flashes = np.hstack(ev_chunks), np.hstack(fl_chunks)
         log.info('data from {0}'.format(fname))
         return events, flashes
-- 
2.43.0


From 179327a45e34e6ebb1464a0743491a14465b0b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:21:25 +0000
Subject: [PATCH 38/48] fix: use the given base date in time series of flashes

---
 glmtools/io/mimic_lma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index c2f2fda..1b0c9dd 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1064,7 +1064,7 @@ class TimeSeriesGLMFlashSubset(TimeSeriesGenericFlashSubset):
                     min_events=None, min_groups=None,
                     lon_range=None, lat_range=None):
         super(TimeSeriesGLMFlashSubset, self).__init__(t_start, t_end, dt,
-                                                    base_date=None)
+                                                    base_date=base_date)
         self.lma = GLMncCollection(glm_filenames, base_date=self.base_date,
                                    min_points=min_events, min_groups=min_groups,
                                    lat_range=lat_range, lon_range=lon_range)
-- 
2.43.0


From 76b8ea21f16f8dbb5aa1fda25eb857f07e52051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:10:14 +0000
Subject: [PATCH 39/48] fix: splitting lightning on the fixed grid level by
 level no longer fails on an unused date

---
 glmtools/io/mimic_lma.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 1b0c9dd..69048d6 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -392,10 +392,6 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
         # unioning by a little bit to avoid the above problem.
 
         if fixed_grid:
-            pt = flash_data.product_time.dt
-            date = datetime(pt.year, pt.month, pt.day,
-                            pt.hour, pt.minute, pt.second)
-
             x_lut, y_lut, corner_lut = load_pixel_corner_lookup(corner_pickle)
             # Convert from microradians to radians
             x_lut = x_lut * 1.0e-6
-- 
2.43.0


From 30898923f92a98103e45cf537317534d2803a2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:21:13 +0000
Subject: [PATCH 40/48] fix: energy of a flash or group in several parts is
 divided among them instead of repeated

---
 glmtools/grid/split_events.py | 19 +++++++++++++++++++
 glmtools/io/mimic_lma.py      |  6 +++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/glmtools/grid/split_events.py b/glmtools/grid/split_events.py
index 3711455..dd44cce 100644
--- a/glmtools/grid/split_events.py
+++ b/glmtools/grid/split_events.py
@@ -43,6 +43,25 @@ def gen_split_events(chopped_polys, poly_areas, slicer, event_ids=None):
                 sq_means, frac_areas, x_idxs, y_idxs, quad_fracs):
             yield(sq, sq_mean, frac_area, quad_area, (x_idx, y_idx), evid)
 
+def fractions_of_parent_area(chopped_polys, poly_areas, parent_ids):
+    """
+    chopped_polys and poly_areas are the N sliced polygons and their areas, as
+    returned by QuadMeshPolySlicer.slice
+    parent_ids are N corresponding ids, which repeat for a parent made of several
+        polygons.
+
+    Returns chopped_polys, poly_areas with the areas of whole parents, and the
+    fractions of each sub-poly relative to those.
+    """
+    totals = {}
+    for parent_id, area in zip(parent_ids, poly_areas):
+        totals[parent_id] = totals.get(parent_id, 0.0) + area
+    parent_areas = [totals[parent_id] for parent_id in parent_ids]
+    chopped_parents = [(subquads, np.asarray(frac_areas)*(area/total), idxs)
+        for (subquads, frac_areas, idxs), area, total in zip(
+            chopped_polys, poly_areas, parent_areas)]
+    return chopped_parents, parent_areas
+
 def split_event_data(split_polys, poly_areas, slicer, event_ids):
     """
     split_polys is a list of N original polygons whose elements contain the
diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 69048d6..eead847 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -11,7 +11,7 @@ log.addHandler(logging.NullHandler())
 from functools import partial
 
 from glmtools.io.glm import GLMDataset, get_lutevents
-from glmtools.grid.split_events import split_event_data, split_event_dataset_from_props, split_group_dataset_from_props, split_flash_dataset_from_props, replicate_and_weight_split_child_dataset
+from glmtools.grid.split_events import split_event_data, split_event_dataset_from_props, split_group_dataset_from_props, split_flash_dataset_from_props, replicate_and_weight_split_child_dataset, fractions_of_parent_area
 from glmtools.grid.clipping import QuadMeshPolySlicer, join_polys
 from glmtools.io.ccd import load_pixel_corner_lookup, quads_from_corner_lookup
 from lmatools.io.LMA_h5_file import LMAh5Collection
@@ -459,6 +459,8 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
 
         chopped_union_polys, poly_union_areas = slicer.slice(union_polys, bbox=True)
         log.info("Sliced all groups")
+        chopped_union_polys, poly_union_areas = fractions_of_parent_area(
+            chopped_union_polys, poly_union_areas, union_group_ids)
         split_group_polys, split_group_properties = split_event_data(chopped_union_polys,
             poly_union_areas, slicer, event_ids=union_group_ids)
         if fixed_grid:
@@ -508,6 +510,8 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
 
         chopped_union_polys, poly_union_areas = slicer.slice(union_polys, bbox=True)
         log.info("Sliced all flashes")
+        chopped_union_polys, poly_union_areas = fractions_of_parent_area(
+            chopped_union_polys, poly_union_areas, union_flash_ids)
         split_flash_polys, split_flash_properties = split_event_data(chopped_union_polys,
             poly_union_areas, slicer, event_ids=union_flash_ids)
         if fixed_grid:
-- 
2.43.0


From 06606b14f0785159f7d24c59bb2010edbadef2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:21:31 +0000
Subject: [PATCH 41/48] fix: splitting level by level finds all cells of events
 that are wide compared to the grid

---
 glmtools/io/mimic_lma.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index eead847..46e1eb5 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -415,7 +415,8 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
         slicer = QuadMeshPolySlicer(mesh)
         # --- Split up the events ---
         log.info("Starting to split events")
-        chopped_polys, poly_areas = slicer.slice(event_polys)
+        # Events may be wider than the neighborhood that is searched without bbox.
+        chopped_polys, poly_areas = slicer.slice(event_polys, bbox=True)
         log.info("Sliced all events")
         split_event_polys, split_event_properties = split_event_data(chopped_polys, poly_areas, slicer, event_ids=event_ids)
         if fixed_grid:
-- 
2.43.0


From 124799db580b4c49b5aeda839a47e3eefd529629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:55 +0000
Subject: [PATCH 42/48] fix: keep group and event ids of 2**31 and above in the
 tables

The ids are unsigned 32 bit numbers, but the tables held them in signed
columns, so that large ones came out negative.
---
 glmtools/io/mimic_lma.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 46e1eb5..3c2b3ac 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -591,7 +591,7 @@ def sec_since_basedate(t64, basedate):
 
 
 # These are adapted from the dtypes in the LMA HDF5 data files
-event_dtype=[('flash_id', '<i4'),
+event_dtype=[('flash_id', '<u4'),
              ('alt', '<f4'),
              ('lat', '<f4'), ('lon', '<f4'), ('time', '<f8'),
              ('mesh_frac', '<f8'),
@@ -604,11 +604,11 @@ flash_dtype=[('area', '<f4'),  ('total_energy', '<f4'),
              ('start', '<f8'), ('duration', '<f4'),
              ('init_lat', '<f4'), ('init_lon', '<f4'),
              ('init_alt', '<f4'),# ('init_pts', 'S256'),
-             ('flash_id', '<i4'),  ('n_points', '<i2'),  ]
+             ('flash_id', '<u4'),  ('n_points', '<i2'),  ]
 flash_dtype_fixedgridlut=[('area', '<f4'),  ('total_energy', '<f4'),
              ('start', '<f8'), ('duration', '<f4'),
              ('ctr_x', '<f4'), ('ctr_y', '<f4'), ('ctr_z', '<f4'),
-             ('flash_id', '<i4'),  ('n_points', '<i2'),  ]
+             ('flash_id', '<u4'),  ('n_points', '<i2'),  ]
 
 def _fake_lma_from_glm_flashes(flash_data, basedate,
         split_events=None, split_groups=None, split_flashes=None):
@@ -808,7 +808,7 @@ def _fake_lma_from_glm_events(flash_data, basedate,
 
 
 def _fake_lma_events_from_split_glm_lutevents(split_events, basedate):
-    lut_split_event_dtype=[('flash_id', '<i4'),
+    lut_split_event_dtype=[('flash_id', '<u4'),
                  ('x', '<f4'), ('y', '<f4'),
                  ('time', '<f8'),
                  ('mesh_frac', '<f8'),
-- 
2.43.0


From bdc05161d966e1aa43785aa7036b149ea1a76232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:55 +0000
Subject: [PATCH 43/48] fix: count more than 32767 events of a flash or group

The count of points in the tables wrapped to negative numbers.
---
 glmtools/io/mimic_lma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 3c2b3ac..a9d86d3 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -604,11 +604,11 @@ flash_dtype=[('area', '<f4'),  ('total_energy', '<f4'),
              ('start', '<f8'), ('duration', '<f4'),
              ('init_lat', '<f4'), ('init_lon', '<f4'),
              ('init_alt', '<f4'),# ('init_pts', 'S256'),
-             ('flash_id', '<u4'),  ('n_points', '<i2'),  ]
+             ('flash_id', '<u4'),  ('n_points', '<i4'),  ]
 flash_dtype_fixedgridlut=[('area', '<f4'),  ('total_energy', '<f4'),
              ('start', '<f8'), ('duration', '<f4'),
              ('ctr_x', '<f4'), ('ctr_y', '<f4'), ('ctr_z', '<f4'),
-             ('flash_id', '<u4'),  ('n_points', '<i2'),  ]
+             ('flash_id', '<u4'),  ('n_points', '<i4'),  ]
 
 def _fake_lma_from_glm_flashes(flash_data, basedate,
         split_events=None, split_groups=None, split_flashes=None):
-- 
2.43.0


From 62e71e0bf08206ee75e32e6ebfd2586f9d1a5850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:01:40 +0000
Subject: [PATCH 44/48] fix: draw image panels with current cartopy

The background and outline patches of map axes are gone since cartopy 0.18
and replaced by the patch and the 'geo' spine of the axes.
---
 glmtools/plot/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/plot/grid.py b/glmtools/plot/grid.py
index b2cf746..04bfb01 100644
--- a/glmtools/plot/grid.py
+++ b/glmtools/plot/grid.py
@@ -60,7 +60,7 @@ def plot_glm_grid(fig, glm_grids, tidx, fields, subplots=(2,3),
         max_format = display_params[f]['format_string']
 
         ax = fig.add_subplot(subplots[0], subplots[1], fi+1, projection=proj)
-        ax.background_patch.set_facecolor(axes_facecolor)
+        ax.patch.set_facecolor(axes_facecolor)
 #         ax.set_aspect('auto', adjustable=None)
 
         ax.coastlines('10m', color=map_color)
@@ -126,7 +126,7 @@ def plot_glm_grid(fig, glm_grids, tidx, fields, subplots=(2,3),
         cbar = plt.colorbar(glm_img, orientation='horizontal', cax=cbar_ax, #aspect=50,
                     format=LogFormatter(base=2), ticks=LogLocator(base=2))
         cbar.outline.set_edgecolor(axes_facecolor)
-        ax.outline_patch.set_edgecolor(axes_facecolor)
+        ax.spines['geo'].set_edgecolor(axes_facecolor)
         cbar.ax.tick_params(direction='in', color=axes_facecolor, which='both',
                             pad=-14, labelsize=10, labelcolor=axes_facecolor)
         cbar_obj.append(cbar)
-- 
2.43.0


From 64f0051ff4c1edd9fb1ede354d18f56f513f5c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:01:40 +0000
Subject: [PATCH 45/48] fix: share the limits of image panels with current
 matplotlib

The class of map axes in subplots no longer exists, and groups of shared axes
can no longer be joined directly.
---
 glmtools/plot/grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/glmtools/plot/grid.py b/glmtools/plot/grid.py
index 04bfb01..a139a55 100644
--- a/glmtools/plot/grid.py
+++ b/glmtools/plot/grid.py
@@ -23,10 +23,10 @@ panel_labels=['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l']
 
 def set_shared_geoaxes(fig):
     mapax =[axi for axi in fig.axes if
-            type(axi)==cartopy.mpl.geoaxes.GeoAxesSubplot]
-    # for axi in fig.mapax[1:]:
-    mapax[0].get_shared_x_axes().join(*mapax)
-    mapax[0].get_shared_y_axes().join(*mapax)
+            isinstance(axi, cartopy.mpl.geoaxes.GeoAxes)]
+    for axi in mapax[1:]:
+        axi.sharex(mapax[0])
+        axi.sharey(mapax[0])
     return mapax
 
 
-- 
2.43.0


From 1d97874652895e46ee90f1c26b89288d03272045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:02:28 +0000
Subject: [PATCH 46/48] fix: draw images on the projection they are stored in

The map was made for an instrument sweeping the other axis, so that coasts and
borders were some kilometres off the lightning away from the equator and the
meridian of the satellite.
---
 glmtools/plot/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glmtools/plot/grid.py b/glmtools/plot/grid.py
index a139a55..a9c3b90 100644
--- a/glmtools/plot/grid.py
+++ b/glmtools/plot/grid.py
@@ -49,7 +49,8 @@ def plot_glm_grid(fig, glm_grids, tidx, fields, subplots=(2,3),
                                                     scale='50m', facecolor='none')
     globe = ccrs.Globe(semimajor_axis=proj_var.semi_major_axis, semiminor_axis=proj_var.semi_minor_axis)
     proj = ccrs.Geostationary(central_longitude=proj_var.longitude_of_projection_origin,
-                              satellite_height=proj_var.perspective_point_height, globe=globe)
+                              satellite_height=proj_var.perspective_point_height, globe=globe,
+                              sweep_axis=proj_var.sweep_angle_axis)
     cbars=[]
 
     for fi, f in enumerate(fields):
-- 
2.43.0


From 336f8d6e2f355125c8528163e764e5521e8da813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:04:18 +0000
Subject: [PATCH 47/48] fix: areas of many polygons with whole-numbered corners

Measuring many polygons at once halved the sums in place, which numpy
refuses for integers. The single-polygon function already accepted them.
---
 glmtools/grid/clipping.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 1ff6855..8e06d03 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -52,8 +52,7 @@ def vectorized_poly_area(x,y):
     area = det.sum(axis=1)
     # wrap-around terms in determinant
     area += x[:, -1]*y[:, 0] - x[:, 0]*y[:,-1]
-    area *= 0.5
-    return area
+    return area * 0.5
 
 def poly_area(x,y):
     """ Calculate the area of a non-self-intersecting planar polygon.
-- 
2.43.0


From b316afcd489358fd74765fe59f4154bcd5c1a168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:01:48 +0000
Subject: [PATCH 48/48] fix: event_areas returns the area of each event

It divided the number of events by the area of their group instead of
the other way around, and returned nothing.
---
 glmtools/io/glm.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 0f412b8..877d87d 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -148,8 +148,14 @@ def event_areas(flash_data):
     """
     event_count = flash_data.group_child_event_count
     group_area = flash_data.group_area
-    event_area = event_count / group_area
-    # need logic here to replicate the event_area to all events.
+    event_area = group_area.data / event_count.data
+    # replicate to all events
+    group_id = flash_data.group_id.data
+    order = np.argsort(group_id)
+    parent = np.searchsorted(group_id, flash_data.event_parent_group_id.data,
+                             sorter=order)
+    return xr.DataArray(event_area[order[parent]],
+                        dims=flash_data.event_parent_group_id.dims)
 
 class GLMDataset(OneToManyTraversal):
     def __init__(self, filename, calculate_parent_child=True, ellipse_rev=-1,
-- 
2.43.0

