From a2ce910a605f0dbce857a73794ae3e6b36533fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:05 +0000
Subject: [PATCH 01/40] fix: recognise neighbouring cells that meet across the
 antimeridian

Cells on either side of (or over) the antimeridian were classed as not
touching unless the mesh was flagged global, so splitting a cell there
dropped its neighbours from the graph.
---
 meshiphi/mesh_generation/neighbour_graph.py | 29 +++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/meshiphi/mesh_generation/neighbour_graph.py b/meshiphi/mesh_generation/neighbour_graph.py
index 1b75732..e6c803e 100644
--- a/meshiphi/mesh_generation/neighbour_graph.py
+++ b/meshiphi/mesh_generation/neighbour_graph.py
@@ -203,6 +203,28 @@ class NeighbourGraph:
         if len(south_west_corner_indx) > 0:
             self.neighbour_graph[south_west_corner_indx[0]][Direction.north_east] = [south_west_indx]
     
+    @staticmethod
+    def align_longitude(long_a, width_a, long_b, width_b):
+        """
+            Shifts long_b by a full turn if that is what makes the range
+            starting at long_b touch or overlap the range starting at long_a,
+            which is the case when they meet across the antimeridian.
+
+            Args:
+                long_a (float): western edge of the first range
+                width_a (float): width of the first range
+                long_b (float): western edge of the second range
+                width_b (float): width of the second range
+
+            Returns:
+                float: long_b, or long_b +/- 360
+        """
+        for shift in (0, 360, -360):
+            if (long_b + shift <= long_a + width_a) and (
+                    long_b + shift + width_b >= long_a):
+                return long_b + shift
+        return long_b
+
     def get_neighbour_case_bounds(self, bounds_a, bounds_b):
         """
             Given two bounds (bounds_a, bounds_b) returns a case number
@@ -230,6 +252,9 @@ class NeighbourGraph:
         lat_a = bounds_a.get_lat_min()
         long_b = bounds_b.get_long_min()
         lat_b = bounds_b.get_lat_min()
+        # Bounds either side of (or over) the antimeridian may still touch
+        long_b = self.align_longitude(long_a, bounds_a.get_width(),
+                                      long_b, bounds_b.get_width())
 
         if (long_a + bounds_a.get_width()) == long_b and (
                 lat_a + bounds_a.get_height()) == lat_b:
@@ -313,6 +338,10 @@ class NeighbourGraph:
             return long_a == -180  and cellbox_b.get_bounds().get_long_max() == 180 or long_b == -180 and cellbox_a.get_bounds().get_long_max() == 180 
         if self.is_global_mesh() and on_global_bound (cellbox_a , cellbox_b) :
             return self.get_global_mesh_neighbour_case(cellbox_a, cellbox_b)
+
+        # Cellboxes either side of (or over) the antimeridian may still touch
+        long_b = self.align_longitude(long_a, cellbox_a.get_bounds().get_width(),
+                                      long_b, cellbox_b.get_bounds().get_width())
         
         if (long_a + cellbox_a.get_bounds().get_width()) == long_b and (
                 lat_a + cellbox_a.get_bounds().get_height()) == lat_b:
-- 
2.43.0


From 39407ae70fa8f5e82b38b3cc737155208864595f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:31 +0000
Subject: [PATCH 02/40] fix: keep the midpoint of a split boundary within
 -180:180

Splitting a boundary that crosses the antimeridian west of its midpoint
raised a ValueError because the midpoint longitude exceeded 180.
---
 meshiphi/mesh_generation/boundary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index 8d16204..03878ee 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -415,6 +415,9 @@ class Boundary:
         """
         lat_mid = self.get_lat_min() + (self.get_height() / 2)
         long_mid = self.get_long_min() + (self.get_width() / 2)
+        # Keep within -180:180 if boundary goes over the antimeridian
+        if long_mid > 180:
+            long_mid -= 360
 
         # 0 = south_west, 1 = north_west, 2 = south_east, 3 = north_east
         bounds = [
-- 
2.43.0


From 3b99db7d5a68b400ced99849a9ea967e0afa0f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:56 +0000
Subject: [PATCH 03/40] fix: reject cell widths that do not divide a region
 going around the globe

---
 meshiphi/config_validation/config_validator.py | 6 +++++-
 meshiphi/mesh_generation/mesh_builder.py       | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/meshiphi/config_validation/config_validator.py b/meshiphi/config_validation/config_validator.py
index 65e4217..dac7a8e 100644
--- a/meshiphi/config_validation/config_validator.py
+++ b/meshiphi/config_validation/config_validator.py
@@ -94,7 +94,11 @@ def validate_mesh_config(config):
             bound_max (float): Maximum value of boundary in the same axis
             cell_size (float): Initial cellbox size in the same axis
         """
-        assert(((bound_max - bound_min)%360/cell_size)%1 == 0), \
+        extent = (bound_max - bound_min)%360
+        # -180:180 goes all the way around the globe
+        if extent == 0 and bound_max != bound_min:
+            extent = 360
+        assert((extent/cell_size)%1 == 0), \
             f"{bound_max}-{bound_min}={bound_max-bound_min} is not evenly "+\
             f"divided by {cell_size}"
         
diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index ca03886..c663dda 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -317,7 +317,7 @@ class MeshBuilder:
         
 
     def validate_bounds(self, bounds, cell_width, cell_height):
-        assert (bounds.get_long_max() - bounds.get_long_min()) % 360 % cell_width == 0, \
+        assert bounds.get_width() % cell_width == 0, \
             f"""The defined longitude region <{bounds.get_long_min()} :{bounds.get_long_max()}>
             is not divisable by the initial cell width <{cell_width}>"""
 
-- 
2.43.0


From 998df95c76ce8463d95b64d5c7da55fd2872651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:42 +0000
Subject: [PATCH 04/40] fix: record the id a cellbox has after its id is
 incremented

---
 meshiphi/mesh_generation/environment_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 1bda9a6..a0e214d 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -758,7 +758,7 @@ class EnvironmentMesh:
 
         for cellbox in self.agg_cellboxes:
             cellbox.set_id(str(int(cellbox.get_id()) + increment))
-            cellbox.agg_data['id'] = str(int(cellbox.get_id()) + increment)
+            cellbox.agg_data['id'] = cellbox.get_id()
 
         self.neighbour_graph.increment_ids(increment)
         
-- 
2.43.0


From 1fbc28cfae1324ac7694ec4e2bb1bdb7be2a0161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:42 +0000
Subject: [PATCH 05/40] fix: leave the mesh given to merge_mesh unmodified

---
 meshiphi/mesh_generation/environment_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index a0e214d..238796d 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1,3 +1,4 @@
+import copy
 import json
 import logging
 import geopandas as gpd
@@ -218,6 +219,9 @@ class EnvironmentMesh:
 
         assert self.validate_merge_compatibility(mesh2), "The given mesh is not compatible with merging with this mesh" 
 
+        # Work on a copy, so that the given mesh is left as it is
+        mesh2 = copy.deepcopy(mesh2)
+
         # append config files
         if "merged" not in self.config.keys():
             self.config["merged"] = []
-- 
2.43.0


From 08aeaf09d51dc1da59b5fa9a01e9688cf1d075e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:42 +0000
Subject: [PATCH 06/40] fix: reject indices outside the mesh when updating a
 cellbox

---
 meshiphi/mesh_generation/environment_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 238796d..bd0f1c7 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1465,7 +1465,7 @@ class EnvironmentMesh:
               index (int): the index of the cellbox to be updated
               values (dict): a dict contains perf. metrics names and values
         """
-        if index > -1 or index < len(self.agg_cellboxes):
+        if index > -1 and index < len(self.agg_cellboxes):
             self.agg_cellboxes[index].agg_data.update(values)
         else:
             raise ValueError('Invalid cellbox index')
-- 
2.43.0


From d9cbd39dc3e92e53a2a8954836a9a7928da5ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:51 +0000
Subject: [PATCH 07/40] fix: select dataframe rows inside bounds that cross the
 antimeridian

---
 meshiphi/dataloaders/scalar/abstract_scalar.py | 4 ++--
 meshiphi/dataloaders/vector/abstract_vector.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index 36cb389..826b09b 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -272,8 +272,8 @@ class ScalarDataLoader(DataLoaderInterface):
             else:
                 mask = (data['lat']  > bounds.get_lat_min())  & \
                     (data['lat']  <= bounds.get_lat_max())  & \
-                    (data['long'] <= bounds.get_long_min()) & \
-                    (data['long'] > bounds.get_long_max())
+                    ((data['long'] > bounds.get_long_min()) | \
+                    (data['long'] <= bounds.get_long_max()))
             # Mask with time if time column exists
             if 'time' in data.columns:
                 mask &= (data['time'] >= bounds.get_time_min()) & \
diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 26cc222..6c67881 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -327,8 +327,8 @@ class VectorDataLoader(DataLoaderInterface):
             else:
                 mask = (data['lat']  > bounds.get_lat_min())  & \
                     (data['lat']  <= bounds.get_lat_max())  & \
-                    (data['long'] <= bounds.get_long_min()) & \
-                    (data['long'] > bounds.get_long_max())
+                    ((data['long'] > bounds.get_long_min()) | \
+                    (data['long'] <= bounds.get_long_max()))
             # Mask with time if time column exists
             if 'time' in data.columns:
                 mask &= (data['time'] >= bounds.get_time_min()) & \
-- 
2.43.0


From 462a0a73a634be88722890615de1cbbfebadb301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:20 +0000
Subject: [PATCH 08/40] fix: take the curl of gridded vectors along the right
 axes

---
 meshiphi/dataloaders/vector/abstract_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 6c67881..dc76dd7 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -1064,7 +1064,8 @@ class VectorDataLoader(DataLoaderInterface):
         
         def meshgrid_from_xr(data, data_name_list):
             # Extract out each variable and combine as tuple
-            data_arrays = [data[name].values 
+            # (x along the first axis, as for dataframes)
+            data_arrays = [data[name].transpose('long', 'lat', ...).values 
                                 for name in data_name_list]
             # Zip them together to make 2D array of n-dimensional vectors
             return np.dstack(data_arrays)
-- 
2.43.0


From 7988c12e30ce8bd043b2188bb3db282dcb9ff984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:20 +0000
Subject: [PATCH 09/40] fix: measure vectors against the mean vector, for
 gridded data too

---
 meshiphi/dataloaders/vector/abstract_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index dc76dd7..afc63a1 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -1011,8 +1011,8 @@ class VectorDataLoader(DataLoaderInterface):
         else:               dps = data
             
         data_names = self.data_name_list
-        each_vector = dps[data_names].to_numpy()
-        ave_vector = list(self.get_value(bounds, agg_type=agg_type).values())
+        each_vector = np.stack([np.ravel(dps[name]) for name in data_names], axis=-1)
+        ave_vector = list(self.get_value(bounds, agg_type='MEAN', data=dps).values())
         
         delta_vector = each_vector - ave_vector
         
-- 
2.43.0


From 31b8dbf49a11f583609d99b12af9deaabcd982ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:20 +0000
Subject: [PATCH 10/40] fix: use the data names given to add_mag_dir

---
 meshiphi/dataloaders/vector/abstract_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index afc63a1..d83b904 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -221,7 +221,8 @@ class VectorDataLoader(DataLoaderInterface):
         
         # Set defaults if not passed to method
         if data is None:        data = self.data
-        if data_names is None:  names = self.data_name_list
+        if data_names is None:  data_names = self.data_name_list
+        names = data_names
         
         # Perform operation on appropriate datatype
         if type(data) == pd.core.frame.DataFrame:
-- 
2.43.0


From 75fe0f681e1ae2654bbae561f931a9655e29b87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:04 +0000
Subject: [PATCH 11/40] fix: fill empty vector components under their own names

---
 meshiphi/mesh_generation/cellbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/cellbox.py b/meshiphi/mesh_generation/cellbox.py
index c2bab10..11e957a 100644
--- a/meshiphi/mesh_generation/cellbox.py
+++ b/meshiphi/mesh_generation/cellbox.py
@@ -377,7 +377,7 @@ class CellBox:
                         agg_value[name] = loader.get_value(parent.bounds, data=parent_data_subset)[name]
                         parent = parent.get_parent()
                 else:  # not parent, so either float or Nan so set the agg_Data to value_fill_type
-                    agg_value[data_name] = source.get_value_fill_type()
+                    agg_value[name] = source.get_value_fill_type()
         return agg_value
 
     def deallocate_cellbox(self):
-- 
2.43.0


From 964cc5cd3fb8053066fbc39fecfb089840433ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:04 +0000
Subject: [PATCH 12/40] fix: keep earlier non-NaN values of vector sources too

---
 meshiphi/mesh_generation/cellbox.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/meshiphi/mesh_generation/cellbox.py b/meshiphi/mesh_generation/cellbox.py
index 11e957a..3388451 100644
--- a/meshiphi/mesh_generation/cellbox.py
+++ b/meshiphi/mesh_generation/cellbox.py
@@ -342,13 +342,14 @@ class CellBox:
                 else:  # not parent, so either float or Nan so set the agg_Data to value_fill_type
                     agg_value[data_name] = source.get_value_fill_type()
                     
-            # If already and value for {data_name} in cellbox and it's a NaN, overwrite
-            if (data_name in agg_dict):
-                if np.isnan(agg_dict[data_name]):
-                    logging.warning(f'\t{data_name} already exists in cellbox! Overwriting only NaN values')
-                    agg_dict.update(agg_value)
-            else:
-                agg_dict.update(agg_value)
+            # If already and value for {name} in cellbox and it's a NaN, overwrite
+            for name, value in agg_value.items():
+                if name in agg_dict:
+                    if np.isnan(agg_dict[name]):
+                        logging.warning(f'\t{name} already exists in cellbox! Overwriting only NaN values')
+                        agg_dict[name] = value
+                else:
+                    agg_dict[name] = value
                 
         agg_cellbox = AggregatedCellBox(self.bounds, agg_dict, self.get_id())
         # free the memory space used by the cellbox
-- 
2.43.0


From 39589b748bfbc7cfb0923a16eeb61757a8299dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:04 +0000
Subject: [PATCH 13/40] fix: fill empty cellboxes with numbers rather than
 strings

---
 meshiphi/mesh_generation/mesh_builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index c663dda..b8c130e 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -228,7 +228,10 @@ class MeshBuilder:
                     return False
         value_fill_type = "parent"
         if 'value_fill_types' in data_source['params']:
-            if is_float (data_source  ['params']['value_fill_types']) or   data_source['params']['value_fill_types'] in ["parent" ,"Nan"]:
+            if is_float (data_source  ['params']['value_fill_types']):
+                # Store as a number ("Nan" included), as it's used as value of a cellbox
+                value_fill_type = float(data_source  ['params']['value_fill_types'])
+            elif data_source['params']['value_fill_types'] == "parent":
                 value_fill_type = data_source  ['params']['value_fill_types']
             else:
                 logging.warning("Invalid value for value_fill_types, setting to the default(parent) instead.")
-- 
2.43.0


From a40c322eb6528f0327dc17d53a1dcf781d1a807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:04 +0000
Subject: [PATCH 14/40] fix: give cellboxes their data subset of an added
 dataloader

---
 meshiphi/mesh_generation/mesh_builder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index b8c130e..dd33482 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -307,17 +307,18 @@ class MeshBuilder:
         value_fill_type = self.check_value_fill_type(data_source)
         
         meta_data_obj = Metadata(
-            dataloader, updated_splitting_cond,  value_fill_type)
+            dataloader, updated_splitting_cond,  value_fill_type, dataloader.data)
         
         for cellbox in self.mesh.cellboxes:
             if isinstance(cellbox, CellBox):
                 cellbox.set_minimum_datapoints(min_dp)
                 # Add new meta data to list of data sources per cellbox
                 cellbox.set_data_source(
-                    cellbox.get_data_source() + [meta_data_obj]
+                    cellbox.get_data_source() +
+                    self.initialize_meta_data_subsets(cellbox.bounds, [meta_data_obj])
                 )
 
-        
+        return self
 
     def validate_bounds(self, bounds, cell_width, cell_height):
         assert bounds.get_width() % cell_width == 0, \
-- 
2.43.0


From 55a87b620edd8aab65d065faa8965a04e607bcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:04 +0000
Subject: [PATCH 15/40] fix: allow splitting a mesh again after its first
 cellbox was split

---
 meshiphi/mesh_generation/mesh_builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index dd33482..70c6cce 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -571,7 +571,9 @@ class MeshBuilder:
         logging.info ("Splitting cellboxes...")
         # loop over the data_sources then cellboxes to implement depth-first splitting. should be simpler and loop over cellboxes only once we switch to breadth-first splitting
         # this impl assumws all the cellboxes have the same data sources. should not be the caase once we switch to breadth-first splitting.
-        data_sources = self.mesh.cellboxes[0].get_data_source()
+        # skip cellboxes that were already split and replaced
+        data_sources = next(cellbox for cellbox in self.mesh.cellboxes
+                            if isinstance(cellbox, CellBox)).get_data_source()
         
         # Set up data_source progress bar
         ds_pbar = tqdm(range(0, len(data_sources)), position=0, 
-- 
2.43.0


From 31b59e3c73201270ca5ceb9c5019de65c559ee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:16 +0000
Subject: [PATCH 16/40] fix: splitting around a point on a cell's midline no
 longer raises

After the first split such a point lies on an edge of the new cells, in none of
them, and split_points failed with 'Point not within the mesh'.
---
 meshiphi/mesh_generation/environment_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index bd0f1c7..2ec3a0f 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -191,9 +191,9 @@ class EnvironmentMesh:
         """
         for point in points:
             splitting_waypoint = True
-            if self.query_inside_mesh(point):
-                while splitting_waypoint:
-                    splitting_waypoint = self._split_loc(point)
+            # A point on an edge of the new cells is no longer inside any cell
+            while splitting_waypoint and self.query_inside_mesh(point):
+                splitting_waypoint = self._split_loc(point)
 
     def get_cellbox(self, cellbox_id):
         """
-- 
2.43.0


From fd6c0049bc786e431547234f9b8e1138da48c37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:22 +0000
Subject: [PATCH 17/40] fix: a region's longitudes and latitudes outside the
 globe are all rejected

Only the first longitude was checked from below and the second from above, so
that e.g. [200, 10] was accepted, as was any latitude.
---
 meshiphi/mesh_generation/boundary.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index 03878ee..73ec22a 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -192,7 +192,9 @@ class Boundary:
             raise ValueError('Boundary: range should contain two values')
         if lat_range[0] > lat_range [1]:
              raise ValueError(f'Boundary: Latitude start range {lat_range[0]} should be smaller than range end {lat_range[1]}')
-        if long_range[0] < -180 or long_range[1] > 180:
+        if lat_range[0] < -90 or lat_range[1] > 90:
+            raise ValueError('Boundary: Latitude range should be within -90:90')
+        if min(long_range) < -180 or max(long_range) > 180:
             raise ValueError('Boundary: Longtitude range should be within -180:180')
         if time_range != []:
             if len(time_range) == 2:
-- 
2.43.0


From 01d458e263d566dcc3ee1226fdcfbc016ce229cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:07 +0000
Subject: [PATCH 18/40] fix: regions with different time ranges are not equal

The comparison looked at attributes a Boundary does not have, so time was never
compared.
---
 meshiphi/mesh_generation/boundary.py | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index 73ec22a..c296a97 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -461,23 +461,9 @@ class Boundary:
         boundary_checks += [(self.get_long_min() == other.get_long_min())]
         boundary_checks += [(self.get_long_max() == other.get_long_max())]
 
-        # Check if obects have the attributes to be tested
-        has_start_time = ([hasattr(self, 'start_time'), hasattr(other, 'start_time')])
-        has_end_time   = ([hasattr(self, 'end_time'),   hasattr(other, 'end_time')])
-
-        # If they both have the attribute, check that they are equal
-        if all(has_start_time):
-            boundary_checks += [(self.get_start_time() == other.get_start_time())]
-        # If only one has the attribute, they aren't equal
-        elif any(has_start_time):
-            boundary_checks += [False]
-        # Otherwise, we don't need to append to the check list
-
-        # Same logic, just with other temporal boundary
-        if all(has_end_time):
-            boundary_checks += [(self.get_end_time() == other.get_end_time())]
-        elif any(has_end_time):
-            boundary_checks += [False]
-        
+        # If they both have a temporal boundary, check that they are equal
+        if self.get_time_range() and other.get_time_range():
+            boundary_checks += [(self.get_time_range() == other.get_time_range())]
+
         # See if every check has passed
         return all(boundary_checks)
\ No newline at end of file
-- 
2.43.0


From 8c008d7621e7982d64c4dc6089a682d11ed1e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:12 +0000
Subject: [PATCH 19/40] fix: a mesh configuration given as a file path can be
 validated

The dates and cell sizes were looked up in the path rather than in the file read.
---
 meshiphi/config_validation/config_validator.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/meshiphi/config_validation/config_validator.py b/meshiphi/config_validation/config_validator.py
index dac7a8e..27d23be 100644
--- a/meshiphi/config_validation/config_validator.py
+++ b/meshiphi/config_validation/config_validator.py
@@ -109,16 +109,16 @@ def validate_mesh_config(config):
     jsonschema.validate(instance=config_json, schema=mesh_schema)
     
     # Check that the dates in the region are valid
-    assert_valid_time(config['region']['start_time'])
-    assert_valid_time(config['region']['end_time'])
+    assert_valid_time(config_json['region']['start_time'])
+    assert_valid_time(config_json['region']['end_time'])
     
     # Check that cellbox width and height evenly divide boundary
-    assert_valid_cellsize(config['region']['lat_min'],
-                          config['region']['lat_max'],
-                          config['region']['cell_height'])
-    assert_valid_cellsize(config['region']['long_min'],
-                          config['region']['long_max'],
-                          config['region']['cell_width'])
+    assert_valid_cellsize(config_json['region']['lat_min'],
+                          config_json['region']['lat_max'],
+                          config_json['region']['cell_height'])
+    assert_valid_cellsize(config_json['region']['long_min'],
+                          config_json['region']['long_max'],
+                          config_json['region']['cell_width'])
     
 def validate_vessel_config(config):
     """
-- 
2.43.0


From 31d20870d601603bbec5dfb10f0e8ee233ac0fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:41 +0000
Subject: [PATCH 20/40] fix: only dates the region can read pass configuration
 validation

Texts such as 'TODAY,3', 'TODAY+3x' or '20170201' were accepted and failed later.
---
 .../config_validation/config_validator.py     | 25 ++++---------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/meshiphi/config_validation/config_validator.py b/meshiphi/config_validation/config_validator.py
index 27d23be..e2540ef 100644
--- a/meshiphi/config_validation/config_validator.py
+++ b/meshiphi/config_validation/config_validator.py
@@ -1,14 +1,13 @@
 import json
 import jsonschema
 import logging
-import datetime
-import re
 import pandas as pd
 
 from meshiphi.config_validation.mesh_schema import mesh_schema
 from meshiphi.config_validation.vessel_schema import vessel_schema
 from meshiphi.config_validation.route_schema import route_schema
 from meshiphi.config_validation.waypoints_schema import waypoints_columns
+from meshiphi.mesh_generation.boundary import Boundary
 
 def flexi_json_input(config):
     """
@@ -64,24 +63,10 @@ def validate_mesh_config(config):
         Raises:
             ValueError: String not in a valid date format
         """
-        correctly_formatted = False
-        # If relative time is parsed
-        if re.match(r'TODAY[+,-]\d+', time_str.replace(' ','')):
-            correctly_formatted = True
-        elif time_str == 'TODAY':
-            correctly_formatted = True
-        # Otherwise check if date is parsed correctly
-        else:
-            try:
-                # Checks if formatted as YYYY-MM-DD with a valid date
-                datetime.date.fromisoformat(time_str)
-                # If so, then it's correct
-                correctly_formatted = True
-            except ValueError:
-                # Otherwise, keep correctly_formatted = False
-                pass
-        # If it failed to pass
-        if not correctly_formatted:
+        # Accept what can be read as a date when the boundary is created
+        try:
+            Boundary.parse_datetime(time_str)
+        except ValueError:
             raise ValueError(f'{time_str} is not a valid date format!')
     
     def assert_valid_cellsize(bound_min, bound_max, cell_size):
-- 
2.43.0


From 138a1742493546e252e8f8cf88a10c29c1152f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:32 +0000
Subject: [PATCH 21/40] fix: a cell size that is not positive fails
 configuration validation

It was accepted, and building failed later with StopIteration.
---
 meshiphi/config_validation/mesh_schema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/config_validation/mesh_schema.py b/meshiphi/config_validation/mesh_schema.py
index bf8bb78..41a851a 100644
--- a/meshiphi/config_validation/mesh_schema.py
+++ b/meshiphi/config_validation/mesh_schema.py
@@ -12,8 +12,8 @@ region_schema = {
         "long_max": {"type": "number"},
         "start_time": {"type": "string"},
         "end_time": {"type": "string"},
-        "cell_width": {"type": "number"},
-        "cell_height": {"type": "number"}
+        "cell_width": {"type": "number", "exclusiveMinimum": 0},
+        "cell_height": {"type": "number", "exclusiveMinimum": 0}
     }
 }
 
-- 
2.43.0


From a16b639508c7113b5e5f9acefd22304f8ddac8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:10 +0000
Subject: [PATCH 22/40] fix: give rectangles a default height rather than a
 default width twice

---
 meshiphi/dataloaders/scalar/shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/shape.py b/meshiphi/dataloaders/scalar/shape.py
index 32cf6f8..a40d45d 100644
--- a/meshiphi/dataloaders/scalar/shape.py
+++ b/meshiphi/dataloaders/scalar/shape.py
@@ -47,7 +47,7 @@ class ShapeDataLoader(ScalarDataLoader):
             if 'width' not in params:
                 params['width'] = 1
             if 'height' not in params:
-                params['width'] = 1
+                params['height'] = 1
             if 'centre' not in params:
                 params['centre'] = (None, None)
         # Define default gradient params
-- 
2.43.0


From cbdf88dcb294a2d7c2c6fe8272be4ce891f8b5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:21 +0000
Subject: [PATCH 23/40] fix: fill in the default settings of vector shapes

---
 meshiphi/dataloaders/vector/vector_shape.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/meshiphi/dataloaders/vector/vector_shape.py b/meshiphi/dataloaders/vector/vector_shape.py
index 2948677..89d40ef 100644
--- a/meshiphi/dataloaders/vector/vector_shape.py
+++ b/meshiphi/dataloaders/vector/vector_shape.py
@@ -32,26 +32,26 @@ class VectorShapeDataLoader(VectorDataLoader):
 
         # Scaling factor to multiply data points by
         if 'multiplier_u' not in params:
-            params['multiplier'] = 1
+            params['multiplier_u'] = 1
         if 'multiplier_v' not in params:
-            params['multiplier'] = 1
+            params['multiplier_v'] = 1
 
         # Define default circle parameters
-        if params['dataloader_name'] == 'circle':
+        if params['dataloader_name'] == 'vector_circle':
             if 'radius' not in params:
                 params['radius'] = 1
             if 'centre' not in params:
                 params['centre'] = (None, None)
         # Define default rectangle parameters
-        elif params['dataloader_name'] == 'rectangle':
+        elif params['dataloader_name'] == 'vector_rectangle':
             if 'width' not in params:
                 params['width'] = 1
             if 'height' not in params:
-                params['width'] = 1
+                params['height'] = 1
             if 'centre' not in params:
                 params['centre'] = (None, None)
         # Define default gradient params
-        elif params['dataloader_name'] == 'gradient':
+        elif params['dataloader_name'] == 'vector_gradient':
             if 'vertical' not in params:
                 params['vertical'] = True
 
-- 
2.43.0


From c899055beee212a5692969ac2081c084b654b767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:21 +0000
Subject: [PATCH 24/40] fix: give unnamed geojson and shapefile data its
 default name

---
 meshiphi/dataloaders/lut/lut_geojson.py   | 2 +-
 meshiphi/dataloaders/lut/lut_shapefile.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/lut/lut_geojson.py b/meshiphi/dataloaders/lut/lut_geojson.py
index 548fe81..3f61d60 100644
--- a/meshiphi/dataloaders/lut/lut_geojson.py
+++ b/meshiphi/dataloaders/lut/lut_geojson.py
@@ -28,7 +28,7 @@ class LutGeoJSON(LutDataLoader):
         params = super().add_default_params(params)
         
         # Name of data being read in from GeoJSONs
-        if 'data_name' not in params:
+        if params['data_name'] is None:
             params['data_name'] = 'dummy_data'
             
         return params
diff --git a/meshiphi/dataloaders/lut/lut_shapefile.py b/meshiphi/dataloaders/lut/lut_shapefile.py
index 852e5b2..a27ebd1 100644
--- a/meshiphi/dataloaders/lut/lut_shapefile.py
+++ b/meshiphi/dataloaders/lut/lut_shapefile.py
@@ -28,7 +28,7 @@ class LutShapefile(LutDataLoader):
         params = super().add_default_params(params)
         
         # Name of data being read in from GeoJSONs
-        if 'data_name' not in params:
+        if params['data_name'] is None:
             params['data_name'] = 'dummy_data'
             
         return params
-- 
2.43.0


From ffda9cdd2e8557f39ddf115158268bb55f08c726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:40 +0000
Subject: [PATCH 25/40] fix: weight each look-up table polygon by its own share
 of the cell

The weights were computed once for all polygons together, so MEAN, MEDIAN
and STD ignored how much of the cell each polygon covers.
---
 meshiphi/dataloaders/lut/abstract_lut.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index ec8f987..ee17adc 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -273,9 +273,9 @@ class LutDataLoader(DataLoaderInterface):
             # Skipna not easily parsed to remaining calculations, so force it here
             if skipna: polygons = polygons.dropna()
             # Mean, median, and std dev need to be weighted by size of polygons
-            polygons = polygons.assign(weights=lambda row: 
-                                        self.calculate_coverage(bounds, 
-                                                                row['geometry']))
+            polygons = polygons.assign(weights=[
+                            self.calculate_coverage(bounds, pd.Series([polygon]))
+                            for polygon in polygons['geometry']])
             if agg_type == 'MEAN':
                 ret_val = np.average(polygons[self.data_name], 
                                 weights=polygons['weights'])
-- 
2.43.0


From 1dd84dc07bc35f525516c3f5cebac4687fe62a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:40 +0000
Subject: [PATCH 26/40] fix: look-up table MEDIAN gives the median value

It gave a whole row of the table, taken in table order rather than in
order of value.
---
 meshiphi/dataloaders/lut/abstract_lut.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index ee17adc..c928a15 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -281,7 +281,8 @@ class LutDataLoader(DataLoaderInterface):
                                 weights=polygons['weights'])
             
             elif agg_type == 'MEDIAN':
-                # Chunk by cumulative weight
+                # Chunk by cumulative weight, in order of value
+                polygons = polygons.sort_values(self.data_name)
                 polygons['cumulative_weights'] = polygons['weights'].cumsum(
                                                                     skipna=skipna)
                 # Find middle of cumulative weight
@@ -289,7 +290,7 @@ class LutDataLoader(DataLoaderInterface):
                 median_pos = total_weight/2
                 # Extract top half and return lowest value (value closest to halfway)
                 top_half = polygons.loc[polygons['cumulative_weights'] >= median_pos]
-                ret_val = top_half.iloc[0]
+                ret_val = top_half[self.data_name].iloc[0]
             
             elif agg_type == 'STD':
                 # Calculate std dev manually to account for weight
-- 
2.43.0


From 7aa77a2e36bfc626763a07f1c1b30adee507f42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:40 +0000
Subject: [PATCH 27/40] fix: rename the data column of a look-up table

Without columns= the row labels are renamed, so a configured data_name
raised KeyError as soon as a value was asked for.
---
 meshiphi/dataloaders/lut/abstract_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index c928a15..ac332f7 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -399,7 +399,7 @@ class LutDataLoader(DataLoaderInterface):
         old_name = self.get_data_col_name()
         if old_name != new_name:
             logging.info(f"\tChanging data name from {old_name} to {new_name}")
-            return self.data.rename({old_name:new_name})
+            return self.data.rename(columns={old_name:new_name})
         else:
             logging.info(f"\tData is already labelled '{new_name}'")
             return self.data
-- 
2.43.0


From b98b78ae0f5a75b39c094a12e8c51c29d5b74df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:40 +0000
Subject: [PATCH 28/40] fix: split_lock is optional for look-up tables too

A cell without any polygon raised KeyError when split_lock was not given;
scalar and vector sources default to False.
---
 meshiphi/dataloaders/lut/abstract_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index ac332f7..a7654ed 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -338,7 +338,7 @@ class LutDataLoader(DataLoaderInterface):
         hom_type = 'CLR'
         # If there's no polygon that overlaps with bounds        
         if not any([polygon.intersects(bounds_polygon) for polygon in polygons]):
-            if splitting_conds['split_lock'] == True: 
+            if splitting_conds.get('split_lock', False) == True: 
                 hom_type = "HOM"
         # If we want to split on the boundary
         elif splitting_conds['boundary']:
-- 
2.43.0


From 102b071cec1cd7c9b5fb6f72b36911c6d9083276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:40 +0000
Subject: [PATCH 29/40] fix: keep rows and dates of look-up tables apart when
 verifying

Rows were picked by label, so rows of the same date were multiplied (and
a MultiPolygon among them raised ValueError), and the dates in the index
were dropped, so that the data was never limited to the time range.
---
 meshiphi/dataloaders/lut/abstract_lut.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index a7654ed..add0dd2 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -148,14 +148,14 @@ class LutDataLoader(DataLoaderInterface):
         # List of rows to include in cleaned dataframe
         new_data = []
         # For each entry
-        for index, row in data.iterrows():
+        for i, (_, row) in enumerate(data.iterrows()):
             # Add row if Polygon
             if row.geometry.geom_type == 'Polygon':
-                new_data.append(data.loc[[index]])
+                new_data.append(data.iloc[[i]])
             # Split out multipolygons to single polygons, and add rows
             elif row.geometry.geom_type == 'MultiPolygon':
                 polygons = list(row.geometry.geoms)
-                new_df = pd.concat([data.loc[[index]]]*len(polygons))
+                new_df = pd.concat([data.iloc[[i]]]*len(polygons))
                 new_df['geometry'] = polygons
                 new_data.append(new_df)
             # Otherwise, geometry not usable
@@ -164,7 +164,8 @@ class LutDataLoader(DataLoaderInterface):
                     f'{row.geometry.geom_type} not acceptable geometry type.'+\
                      ' Must be a Polygon or MultiPolygon!'
                 )
-        data = pd.concat(new_data, ignore_index=True)
+        # Dates are held in the index, so must be kept
+        data = pd.concat(new_data, ignore_index='time' not in data.index.names)
         
         return data
 
-- 
2.43.0


From 3a7953e562b3aa05bfa8a30c91b19b17da98e0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:40 +0000
Subject: [PATCH 30/40] fix: look-up table averages without any weighted
 polygon are missing

A cell touching a polygon only along an edge, or with missing values only,
raised ZeroDivisionError; a touching polygon with a missing value made the
average of the cell missing.
---
 meshiphi/dataloaders/lut/abstract_lut.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index add0dd2..a01fb09 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -277,7 +277,12 @@ class LutDataLoader(DataLoaderInterface):
             polygons = polygons.assign(weights=[
                             self.calculate_coverage(bounds, pd.Series([polygon]))
                             for polygon in polygons['geometry']])
-            if agg_type == 'MEAN':
+            # Polygons only touching the bounds have no area to contribute
+            polygons = polygons[polygons['weights'] > 0]
+            if len(polygons) == 0:
+                ret_val = np.nan
+
+            elif agg_type == 'MEAN':
                 ret_val = np.average(polygons[self.data_name], 
                                 weights=polygons['weights'])
             
-- 
2.43.0


From ba050a41dc44f5906850bae26130facce535fccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:04 +0000
Subject: [PATCH 31/40] fix: look-up table CSVs keep the configured data_name

The name of the CSV's column replaced the one given in the config.
---
 meshiphi/dataloaders/lut/lut_csv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/lut/lut_csv.py b/meshiphi/dataloaders/lut/lut_csv.py
index abef752..c0889c7 100644
--- a/meshiphi/dataloaders/lut/lut_csv.py
+++ b/meshiphi/dataloaders/lut/lut_csv.py
@@ -36,8 +36,9 @@ class LutCSV(LutDataLoader):
         assert (len(csv_df.columns) == 2), \
                 "Dataloader only accepts .csv with 2 columns, 'geometry' and {{data_name}}"
         
-        # Set data name to column in CSV
-        self.data_name = list(set(csv_df.columns.values) - set(['geometry']))[0]
+        # Set data name to column in CSV, unless named in config
+        if self.data_name is None:
+            self.data_name = list(set(csv_df.columns.values) - set(['geometry']))[0]
         # Convert strings to shapely geometries
         csv_df['geometry'] = csv_df['geometry'].apply(wkt.loads)
         # Create boundary denoting the world 
-- 
2.43.0


From c19ca2acacae562d838eb6a30a9149416ba4f5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:04 +0000
Subject: [PATCH 32/40] fix: pair each date of the thickness table with its own
 month

Every date was given the values of all months in the time range, so a
range over two seasons averaged the seasons regardless of the dates.
---
 meshiphi/dataloaders/lut/thickness.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/meshiphi/dataloaders/lut/thickness.py b/meshiphi/dataloaders/lut/thickness.py
index a609656..6d69876 100644
--- a/meshiphi/dataloaders/lut/thickness.py
+++ b/meshiphi/dataloaders/lut/thickness.py
@@ -111,12 +111,10 @@ class ThicknessDataLoader(LutDataLoader):
             if intersection.geom_type in ['Polygon', 'MultiPolygon'] and \
                intersection != Polygon():
                     
-                region_df = pd.concat([
-                        pd.DataFrame({'time': dates,
-                                      'geometry': region.geometry & bounds_polygon,
-                                      'thickness': region.get_value(month)})
-                        for month in dates.month
-                    ])
+                region_df = pd.DataFrame({'time': dates,
+                                          'geometry': region.geometry & bounds_polygon,
+                                          'thickness': [region.get_value(month)
+                                                        for month in dates.month]})
                 
                 thickness_df = pd.concat([thickness_df, region_df])
                 
-- 
2.43.0


From a3f3273adcf084fc5bde561c346a009d544a2b15 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 14:54:08 +0000
Subject: [PATCH 33/40] fix: a shape centre of zero is a configured centre

---
 meshiphi/dataloaders/scalar/shape.py        | 8 ++++----
 meshiphi/dataloaders/vector/vector_shape.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/shape.py b/meshiphi/dataloaders/scalar/shape.py
index a40d45d..88f07b0 100644
--- a/meshiphi/dataloaders/scalar/shape.py
+++ b/meshiphi/dataloaders/scalar/shape.py
@@ -112,8 +112,8 @@ class ShapeDataLoader(ScalarDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny/2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx/2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny/2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx/2)] if self.centre[1] is None else self.centre[1]
         
         # Create vectors for row and col idx's
         y = np.vstack(np.linspace(bounds.get_lat_min(), 
@@ -251,8 +251,8 @@ class ShapeDataLoader(ScalarDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny / 2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx / 2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
 
         # Create vectors for row and col idx's
         y = np.vstack(np.linspace(bounds.get_lat_min(),
diff --git a/meshiphi/dataloaders/vector/vector_shape.py b/meshiphi/dataloaders/vector/vector_shape.py
index 89d40ef..d09f762 100644
--- a/meshiphi/dataloaders/vector/vector_shape.py
+++ b/meshiphi/dataloaders/vector/vector_shape.py
@@ -161,8 +161,8 @@ class VectorShapeDataLoader(VectorDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny / 2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx / 2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
 
         # Create vectors for row and col indices
         y = np.vstack(np.linspace(bounds.get_lat_min(),
@@ -217,8 +217,8 @@ class VectorShapeDataLoader(VectorDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny / 2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx / 2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
 
         # Create vectors for row and col indices
         y = np.vstack(np.linspace(bounds.get_lat_min(),
-- 
2.43.0


From 19e4f3d45550a3877cdde132e59149d87335add6 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 14:54:08 +0000
Subject: [PATCH 34/40] fix: MODIS loader logs the files it opens instead of a
 missing attribute

---
 meshiphi/dataloaders/scalar/modis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/modis.py b/meshiphi/dataloaders/scalar/modis.py
index 4f0fe82..34bb01a 100644
--- a/meshiphi/dataloaders/scalar/modis.py
+++ b/meshiphi/dataloaders/scalar/modis.py
@@ -18,7 +18,7 @@ class MODISDataLoader(ScalarDataLoader):
                 MODIS dataset within limits of bounds. 
                 Dataset has coordinates 'lat', 'long', and variable 'SIC'
         '''
-        logging.info(f"- Opening file {self.file}")
+        logging.info(f"- Opening file {self.files}")
         # Open Dataset
         if len(self.files) == 1:    data = xr.open_dataset(self.files[0])
         else:                       data = xr.open_mfdataset(self.files)
-- 
2.43.0


From b25f3216413a4e4571e0f0a045b527b469a1cf0a Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 14:54:08 +0000
Subject: [PATCH 35/40] fix: ECMWF forecasts are put in order of time

---
 meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py b/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
index 4e3d895..ef5827d 100644
--- a/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
+++ b/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
@@ -83,6 +83,8 @@ class ECMWFSigWaveHeightDataLoader(ScalarDataLoader):
                          f'[ {bounds.get_time_min()} : {bounds.get_time_max()} ]')
             raise FileNotFoundError('No ECMWF Wave files found within specified time range!')
         data = xr.concat(data_array,'time')
+        # Sort the 'time' axis so that sel() will work
+        data = data.sortby('time')
         
         # Extract just SWH
         data = data['swh'].to_dataset()
-- 
2.43.0


From c7127e3559d02aed305fd95b6d6b20c1322c08f8 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 14:54:08 +0000
Subject: [PATCH 36/40] fix: ERA5 wind longitudes are brought into -180:180

---
 meshiphi/dataloaders/vector/era5_wind.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/meshiphi/dataloaders/vector/era5_wind.py b/meshiphi/dataloaders/vector/era5_wind.py
index a075775..19f809d 100644
--- a/meshiphi/dataloaders/vector/era5_wind.py
+++ b/meshiphi/dataloaders/vector/era5_wind.py
@@ -35,6 +35,11 @@ class ERA5WindDataLoader(VectorDataLoader):
         data = data.rename({'latitude': 'lat',
                             'longitude': 'long'})
 
+        # Change domain of dataset from [0:360) to [-180:180)
+        data = data.assign_coords(long=((data.long + 180) % 360) - 180)
+        # Sort the 'long' axis so that sel() will work
+        data = data.sortby('long')
+
         # Set min time to start of month to ensure we include data as we only have a
         # monthly cadence. Assuming time is in str format
         time_min = datetime.strptime(bounds.get_time_min(), '%Y-%m-%d')
-- 
2.43.0


From 523aef6b561ea7dbeba0f005b09b29f6924c7729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:37 +0000
Subject: [PATCH 37/40] fix: GeoTIFF export samples rows by lines and columns
 by columns

Pixel height was taken from the number of columns and pixel width from the
number of lines, so a raster with unequal sides showed values at the wrong
places.
---
 meshiphi/mesh_generation/environment_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 2ec3a0f..59827c0 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1236,8 +1236,8 @@ class EnvironmentMesh:
             """
             mesh_height = self.bounds.get_lat_max() - self.bounds.get_lat_min()
             mesh_width = self.bounds.get_long_max() - self.bounds.get_long_min()
-            pixel_height = mesh_height / ncols
-            pixel_width = mesh_width / nlines
+            pixel_height = mesh_height / nlines
+            pixel_width = mesh_width / ncols
             samples = []
             # has to move in this direction as we start rendering from the upper left pixel
             for lat in np.arange(self.bounds.get_lat_max(), self.bounds.get_lat_min(), -1*pixel_height):
-- 
2.43.0


From e6d596debd2ec0744b0bc8e31c4bf9a5fc076f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:11 +0000
Subject: [PATCH 38/40] fix: convert_decimal_days carries 60 minutes and 24
 hours over

A fraction rounding up gave '11 hours 60 minutes' or '24.0 hours'.
---
 meshiphi/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/meshiphi/utils.py b/meshiphi/utils.py
index 5ddb0d6..5f4817a 100644
--- a/meshiphi/utils.py
+++ b/meshiphi/utils.py
@@ -88,8 +88,9 @@ def convert_decimal_days(decimal_days, mins=False):
     hours = frac_d * 24.0
 
     if mins:
-        frac_h, hours = np.modf(hours)
-        minutes = round(frac_h * 60.0)
+        # Round to whole minutes before splitting, so that 60 minutes carry over
+        hours, minutes = divmod(round(hours * 60.0), 60)
+        days, hours = days + hours // 24, hours % 24
         if days:
             new_time = f"{round(days)} days {round(hours)} hours {minutes} minutes"
         elif hours:
@@ -98,6 +99,9 @@ def convert_decimal_days(decimal_days, mins=False):
             new_time = f"{minutes} minutes"
     else:
         hours = round(hours, 2)
+        # Carry over a fraction that rounds up to a whole day
+        if hours == 24:
+            days, hours = days + 1, 0.0
         if days:
             new_time = f"{round(days)} days {hours} hours"
         else:
-- 
2.43.0


From 618b1c24f5777166aeb85c9ea7911fbd141e8608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:11 +0000
Subject: [PATCH 39/40] fix: round_to_sigfig rounds whole numbers

log10 was told to write into an integer array, so every int or list of
ints raised although both are accepted types.
---
 meshiphi/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/utils.py b/meshiphi/utils.py
index 5f4817a..c47d62e 100644
--- a/meshiphi/utils.py
+++ b/meshiphi/utils.py
@@ -142,7 +142,7 @@ def round_to_sigfig(x, sigfig=5):
     # np.array.astype(int) to enable np.around to work later
     dec_pl = sigfig - np.floor(np.log10(np.abs(x), 
                                         where = loggable_idxs,
-                                        out   = np.zeros_like(x))
+                                        out   = np.zeros_like(x, dtype=float))
                                ).astype(int) - 1
     # Round to sig figs
     rounded = np.array(
-- 
2.43.0


From d908b2dd1ce617f5cdd6d8bc476489fb64753337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:11 +0000
Subject: [PATCH 40/40] fix: FullMeshValidator keeps points of cells over the
 antimeridian

between(175, -175) is empty, so such cells never took part.
---
 meshiphi/mesh_validation/full_mesh_validator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_validation/full_mesh_validator.py b/meshiphi/mesh_validation/full_mesh_validator.py
index bf65eef..e52a4d0 100644
--- a/meshiphi/mesh_validation/full_mesh_validator.py
+++ b/meshiphi/mesh_validation/full_mesh_validator.py
@@ -128,6 +128,11 @@ class FullMeshValidator:
         """
 
         raw_slice = self.source_data[self.source_data['lat'].between(bounds.lat_range[0], bounds.lat_range[1])]
-        raw_slice = raw_slice[raw_slice['long'].between(bounds.long_range[0], bounds.long_range[1])]
+        long_min, long_max = bounds.long_range
+        # Bounds over the antimeridian have their eastern limit west of their western one
+        if long_min > long_max:
+            raw_slice = raw_slice[(raw_slice['long'] >= long_min) | (raw_slice['long'] <= long_max)]
+        else:
+            raw_slice = raw_slice[raw_slice['long'].between(long_min, long_max)]
     
         return raw_slice
-- 
2.43.0

