From 89647808e1289c728a3dfa0040ffc4855540601c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:21 +0000
Subject: [PATCH 01/51] fix: cleanup active for part of a step counts only the
 time inside its active range

---
 py_gnome/gnome/weatherers/cleanup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/weatherers/cleanup.py b/py_gnome/gnome/weatherers/cleanup.py
index 7ba87ee..6a8cc8d 100644
--- a/py_gnome/gnome/weatherers/cleanup.py
+++ b/py_gnome/gnome/weatherers/cleanup.py
@@ -69,8 +69,8 @@ class RemoveMass(object):
                                           model_time).total_seconds()
 
         if (self.active_range[1] < model_time + dt):
-            self._timestep = (self.active_range[1] -
-                              model_time).total_seconds()
+            self._timestep -= (model_time + dt -
+                               self.active_range[1]).total_seconds()
 
     def prepare_for_model_step(self, sc, time_step, model_time):
         '''
-- 
2.43.0


From 6567f79e355e3ad0ebf7b2c04df03f62d82b236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:32 +0000
Subject: [PATCH 02/51] fix: cleanup removes the amount of a weathering
 sub-step, not of the whole step, in each sub-step

---
 py_gnome/gnome/weatherers/cleanup.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/py_gnome/gnome/weatherers/cleanup.py b/py_gnome/gnome/weatherers/cleanup.py
index 6a8cc8d..ea81acf 100644
--- a/py_gnome/gnome/weatherers/cleanup.py
+++ b/py_gnome/gnome/weatherers/cleanup.py
@@ -72,6 +72,9 @@ class RemoveMass(object):
             self._timestep -= (model_time + dt -
                                self.active_range[1]).total_seconds()
 
+        # a weathering sub-step may lie entirely outside the active range
+        self._timestep = max(self._timestep, 0.0)
+
     def prepare_for_model_step(self, sc, time_step, model_time):
         '''
         Do sub timestep resolution here so numbers add up correctly
@@ -348,6 +351,9 @@ class Skimmer(CleanUpBase):
         if not self.active or len(sc) == 0 or not sc.substance.is_weatherable:
             return
 
+        # the model may split its time step into weathering sub-steps
+        self._set__timestep(time_step, model_time)
+
         for substance, data in sc.itersubstancedata(self.array_types, fate_status='skim'):
 
             if len(data['mass']) == 0:
@@ -692,6 +698,9 @@ class Burn(CleanUpBase):
         if not self.active or len(sc) == 0 or not sc.substance.is_weatherable:
             return
 
+        # the model may split its time step into weathering sub-steps
+        self._set__timestep(time_step, model_time)
+
         for substance, data in sc.itersubstancedata(self.array_types, fate_status='burn'):
             if len(data['mass']) == 0:
                 return
@@ -857,6 +866,9 @@ class ChemicalDispersion(CleanUpBase):
         if not self.active or len(sc) == 0 or not sc.substance.is_weatherable:
             return
 
+        # the model may split its time step into weathering sub-steps
+        self._set__timestep(time_step, model_time)
+
         for substance, data in sc.itersubstancedata(self.array_types, fate_status='disperse'):
             if len(data['mass']) == 0:
                 continue
-- 
2.43.0


From 2d3adcfcb52a047de5c6d2f71c9fbe2869653926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:00 +0000
Subject: [PATCH 03/51] fix: element ids start at 0 in each run of each
 container

---
 py_gnome/gnome/spill_container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spill_container.py b/py_gnome/gnome/spill_container.py
index a7332e1..93f16cf 100644
--- a/py_gnome/gnome/spill_container.py
+++ b/py_gnome/gnome/spill_container.py
@@ -13,7 +13,7 @@ import numpy as np
 
 from gnome.basic_types import fate as bt_fate
 from gnome.basic_types import oil_status
-from gnome.array_types import (default_array_types)
+from gnome.array_types import (default_array_types, gat)
 
 from gnome.utilities.orderedcollection import OrderedCollection
 from gnome import AddLogger
@@ -824,6 +824,9 @@ class SpillContainer(AddLogger, SpillContainerData):
             if s.on:
                 s.prepare_for_model_run(time_step)
         ats = default_array_types.copy()
+        # the initial_value of 'id' is advanced as elements are released, so
+        # each run of each container needs its own: ids start at 0
+        ats['id'] = gat('id')
         ats.update(array_types)
         self._array_types = ats
 
-- 
2.43.0


From 363d221ad7f8a39f77dade5d6c4609dc4afa221d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:13 +0000
Subject: [PATCH 04/51] fix: PointLineRelease and SubsurfaceRelease honour
 num_per_timestep instead of ignoring it

---
 py_gnome/gnome/spills/release.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index a4a443d..2eddc77 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -571,6 +571,7 @@ class PointLineRelease(Release):
         super(PointLineRelease, self).__init__(release_time=release_time,
                                                end_release_time=end_release_time,
                                                num_elements=num_elements,
+                                               num_per_timestep=num_per_timestep,
                                                release_mass = release_mass,
                                                **kwargs)
 
@@ -1451,6 +1452,7 @@ class SubsurfaceRelease(PointLineRelease):
         super(SubsurfaceRelease, self).__init__(release_time=release_time,
                                                end_release_time=end_release_time,
                                                num_elements=num_elements,
+                                               num_per_timestep=num_per_timestep,
                                                release_mass = release_mass,
                                                start_position = start_position,
                                                end_position = end_position,
-- 
2.43.0


From 2b8b4edb375d63efe89841afe5815fefb88829ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:24 +0000
Subject: [PATCH 05/51] fix: rewinding a point, line or polygon release forgets
 the volume released in the previous run

---
 py_gnome/gnome/spills/release.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 2eddc77..19e1daa 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -673,6 +673,7 @@ class PointLineRelease(Release):
         self._mass_per_le = 0
         self._release_ts = None
         self._pos_ts = None
+        self._previously_released = 0.0
 
     def prepare_for_model_run(self, ts):
         super(PointLineRelease, self).prepare_for_model_run(ts)
@@ -895,6 +896,7 @@ class PolygonRelease(Release):
         self._tris = None
         self._weights = None
         #self._pos_ts = None
+        self._previously_released = 0.0
 
     def get_polys_as_tris(self, polys, weights=None):
         #decomposes a
-- 
2.43.0


From 81d8d7e2336eee780acea4cd9cd4bb68e04a615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:33 +0000
Subject: [PATCH 06/51] fix: OrderedCollection.replace by position counts
 current objects, also from the end

---
 py_gnome/gnome/utilities/orderedcollection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/utilities/orderedcollection.py b/py_gnome/gnome/utilities/orderedcollection.py
index 0bfc136..1283930 100644
--- a/py_gnome/gnome/utilities/orderedcollection.py
+++ b/py_gnome/gnome/utilities/orderedcollection.py
@@ -137,8 +137,9 @@ class OrderedCollection(object):
                             f'expected {self.dtype}, got {type(new_elem)}')
 
         if isinstance(ident, int):
-            l__key = self._s_id(self._elems[ident])
-            idx = ident
+            # position among the current objects, as in get()
+            idx = sorted(self._d_index.values())[ident]
+            l__key = self._s_id(self._elems[idx])
         else:
             if ident in self._d_index:
                 l__key = ident
-- 
2.43.0


From 762f1f1ee0e8487462c7ffd29cc551fa5e47bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:33 +0000
Subject: [PATCH 07/51] fix: OrderedCollection slices follow list semantics for
 negative, open and out-of-range bounds

---
 py_gnome/gnome/utilities/orderedcollection.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/py_gnome/gnome/utilities/orderedcollection.py b/py_gnome/gnome/utilities/orderedcollection.py
index 1283930..03602ba 100644
--- a/py_gnome/gnome/utilities/orderedcollection.py
+++ b/py_gnome/gnome/utilities/orderedcollection.py
@@ -203,10 +203,7 @@ class OrderedCollection(object):
 
     def _slice_attr(self, ident):
         'support for slice operations like a list'
-        start = (ident.start, 0)[ident.start is None]
-        stop = (ident.stop, len(self))[ident.stop is None]
-        step = (ident.step, 1)[ident.step is None]
-        return (start, stop, step)
+        return ident.indices(len(self))
 
     def __getitem__(self, ident):
         'slicing works just like it does for lists'
-- 
2.43.0


From b7e48d1ea2bc760d857b60ec164eab28d48aa0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:49 +0000
Subject: [PATCH 08/51] fix: uncertain CurrentMover computes the cross-stream
 part from the unperturbed velocity

---
 py_gnome/gnome/movers/py_current_movers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_current_movers.py b/py_gnome/gnome/movers/py_current_movers.py
index f76dd6f..80033fe 100644
--- a/py_gnome/gnome/movers/py_current_movers.py
+++ b/py_gnome/gnome/movers/py_current_movers.py
@@ -321,8 +321,8 @@ class CurrentMover(movers.PyMover):
             # make a copy of deltas
             new_deltas = deltas.copy()
             unrec = self._uncertainty_list
-            u = new_deltas[:, 0]
-            v = new_deltas[:, 1]
+            u = deltas[:, 0]
+            v = deltas[:, 1]
             lengthS = np.hypot(u, v)
 
             #alpha = unrec.downStream
-- 
2.43.0


From 844b633ab9e52e6ae3207dcc40e9bc6dc8e35585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:49 +0000
Subject: [PATCH 09/51] fix: CurrentMover and WindMover survive removal of
 elements before uncertain_time_delay

---
 py_gnome/gnome/movers/py_current_movers.py | 3 ++-
 py_gnome/gnome/movers/py_wind_movers.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_current_movers.py b/py_gnome/gnome/movers/py_current_movers.py
index 80033fe..6297794 100644
--- a/py_gnome/gnome/movers/py_current_movers.py
+++ b/py_gnome/gnome/movers/py_current_movers.py
@@ -391,7 +391,8 @@ class CurrentMover(movers.PyMover):
             to_be_removed = np.where(sc['status_codes'] ==
                                      oil_status.to_be_removed)[0]
 
-            if len(to_be_removed) > 0:
+            # there are no uncertainty values before uncertain_time_delay
+            if len(to_be_removed) > 0 and len(self._uncertainty_list) > 0:
                 new_uncertainty = np.copy(self._uncertainty_list)
                 #self._uncertainty_list = np.delete(self._uncertainty_list, to_be_removed, axis=0)
                 self._uncertainty_list = np.delete(new_uncertainty, to_be_removed, axis=0)
diff --git a/py_gnome/gnome/movers/py_wind_movers.py b/py_gnome/gnome/movers/py_wind_movers.py
index a558857..2e5f01c 100644
--- a/py_gnome/gnome/movers/py_wind_movers.py
+++ b/py_gnome/gnome/movers/py_wind_movers.py
@@ -209,7 +209,8 @@ class WindMover(movers.PyMover):
             to_be_removed = np.where(sc['status_codes'] ==
                                      oil_status.to_be_removed)[0]
 
-            if len(to_be_removed) > 0:
+            # there are no uncertainty values before uncertain_time_delay
+            if len(to_be_removed) > 0 and len(self.uncertainty_list) > 0:
                 new_uncertainty = np.copy(self.uncertainty_list)
                 self.uncertainty_list = np.delete(new_uncertainty, to_be_removed, axis=0)
 
-- 
2.43.0


From 44428daa2ebf1300db0c7bde12764b9afd998b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 10/51] fix: setting duration or time_step keeps the sign of a
 backward run

---
 py_gnome/gnome/model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 757e1cd..6c6f87a 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -311,6 +311,7 @@ class Model(GnomeId):
         # reset _current_time_step
         self._current_time_step = -1
         self._time_step = None
+        self._run_backwards = False  # set below
         if time_step is not None:
             self.time_step = time_step  # this calls rewind() !
         self._reset_num_time_steps()
@@ -603,6 +604,10 @@ class Model(GnomeId):
         except AttributeError:
             self._time_step = int(time_step)
 
+        if self.run_backwards:
+            # backward runs keep a negative time step
+            self._time_step = -abs(self._time_step)
+
         self._reset_num_time_steps()
         self.rewind()
 
@@ -628,12 +633,13 @@ class Model(GnomeId):
 
     @duration.setter
     def duration(self, duration):
-        if duration < self._duration:
+        if abs(duration) < abs(self._duration):
             # only need to rewind if shorter than it was...
             # fixme: actually, only need to rewind if current model time
             # is beyond new time...
             self.rewind()
-        self._duration = duration
+        # backward runs keep a negative duration
+        self._duration = -abs(duration) if self.run_backwards else duration
         self._reset_num_time_steps()
 
     @property
-- 
2.43.0


From 08156947716f14d8af8cbd823869ffe8a4d1bfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:40 +0000
Subject: [PATCH 11/51] fix: fate views stay aligned with the elements of their
 fate

---
 py_gnome/gnome/spill_container.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/spill_container.py b/py_gnome/gnome/spill_container.py
index 93f16cf..93d7755 100644
--- a/py_gnome/gnome/spill_container.py
+++ b/py_gnome/gnome/spill_container.py
@@ -70,10 +70,15 @@ class FateDataView(AddLogger):
             setattr(self, fate_status, sc._data_arrays)
         else:
             dict_to_update = getattr(self, fate_status)
-            for at in array_types:
-                array = sc._array_name(at)
-
-                #if array not in dict_to_update:
+            if dict_to_update is sc._data_arrays:
+                # left from when all elements had this fate: these are the
+                # arrays of the container, not a copy
+                dict_to_update = {}
+            # arrays asked for earlier have to match the current mask as well:
+            # update_sc() writes them all back
+            arrays = set(dict_to_update)
+            arrays.update(sc._array_name(at) for at in array_types)
+            for array in arrays:
                 dict_to_update[array] = sc[array][fate_mask]
 
             setattr(self, fate_status, dict_to_update)
-- 
2.43.0


From d00ecbe88208a4185adebf2ad54125a4e48453ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:22 +0000
Subject: [PATCH 12/51] fix: split_element works when a fate view does not hold
 the ids

---
 py_gnome/gnome/spill_container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/spill_container.py b/py_gnome/gnome/spill_container.py
index 93d7755..8d7c07b 100644
--- a/py_gnome/gnome/spill_container.py
+++ b/py_gnome/gnome/spill_container.py
@@ -157,8 +157,8 @@ class FateDataView(AddLogger):
         for fate in self._dicts_:
             data = getattr(self, fate)
             if len(data) > 0:
-                idx = np.where(data['id'] == ix)[0]
-                if len(idx) > 0:
+                # a view need not hold the 'id' of its elements
+                if 'id' not in data or np.any(data['id'] == ix):
                     self._set_data(sc, data.keys(),
                                    self._get_fate_mask(sc, fate),
                                    fate)
-- 
2.43.0


From 56650ec0985ccc78b06e182be44d5e3f84d1fe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:41 +0000
Subject: [PATCH 13/51] fix: recalc_density writes the new densities back

---
 py_gnome/gnome/ops/density.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/ops/density.py b/py_gnome/gnome/ops/density.py
index 2fb9f68..ad949bf 100644
--- a/py_gnome/gnome/ops/density.py
+++ b/py_gnome/gnome/ops/density.py
@@ -104,7 +104,8 @@ def recalc_density(sc, water=None, aggregate=True):
             data['density'] = new_rho
             data['oil_density'] = oil_rho
 
-    sc.update_from_fatedataview(fate_status='all')
+        # the view itersubstancedata() has given out
+        sc.update_from_fatedataview(fate_status='surface_weather')
 
     # also initialize/update aggregated sc
     if aggregate:
-- 
2.43.0


From a3314e4dd1fa1fb30b02790eca8fd3baa2ac00a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:14 +0000
Subject: [PATCH 14/51] fix: elements that left the map are not weathered

---
 py_gnome/gnome/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 6c6f87a..482dfb9 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1031,6 +1031,10 @@ class Model(GnomeId):
             on_land_mask = sc['status_codes'] == oil_status.on_land
             sc['fate_status'][on_land_mask] = fate.non_weather
 
+            # the mass of these is already in the mass balance (off_maps)
+            removed_mask = sc['status_codes'] == oil_status.to_be_removed
+            sc['fate_status'][removed_mask] = fate.non_weather
+
             w_mask = ((sc['status_codes'] == oil_status.in_water)
                       & ~(sc['fate_status'] & fate.skim == fate.skim)
                       & ~(sc['fate_status'] & fate.burn == fate.burn)
-- 
2.43.0


From dac2ce16160afa8d91b37f6130d62806cabcc61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:02 +0000
Subject: [PATCH 15/51] fix: weatherers without a defined order do not break
 the model run

---
 py_gnome/gnome/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 482dfb9..6e53348 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -761,7 +761,12 @@ class Model(GnomeId):
 
     def _order_weatherers(self):
         'use weatherer_sort to sort the weatherers'
-        s_weatherers = sorted(self.weatherers, key=weatherer_sort)
+        def key(weatherer):
+            # those without a defined order (None) come first
+            order = weatherer_sort(weatherer)
+            return -1 if order is None else order
+
+        s_weatherers = sorted(self.weatherers, key=key)
 
         if list(self.weatherers.values()) != s_weatherers:
             self.weatherers.clear()
-- 
2.43.0


From 316f4cf6a6c49bb3ed3ec4a25ab8833f0a76b0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:30 +0000
Subject: [PATCH 16/51] fix: land checks with coarse raster layers do not miss
 land on the way

---
 py_gnome/gnome/cy_gnome/cy_land_check.pyx | 58 ++++++++++++++++++-----
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/py_gnome/gnome/cy_gnome/cy_land_check.pyx b/py_gnome/gnome/cy_gnome/cy_land_check.pyx
index 847ad1d..c8fd39b 100644
--- a/py_gnome/gnome/cy_gnome/cy_land_check.pyx
+++ b/py_gnome/gnome/cy_gnome/cy_land_check.pyx
@@ -171,6 +171,27 @@ cdef bool c_find_first_pixel(uint8_t* grid,
 
 
 
+cdef bool c_land_in_box(uint8_t* grid,
+                        int32_t m,
+                        int32_t n,
+                        int32_t x0,
+                        int32_t y0,
+                        int32_t x1,
+                        int32_t y1,
+                        ):
+    """
+    returns True if there is any land in the box of cells with (x0, y0) and
+    (x1, y1) in opposite corners (both included).
+    """
+    cdef int32_t x, y
+
+    for x in range(max(min(x0, x1), 0), min(max(x0, x1), m - 1) + 1):
+        for y in range(max(min(y0, y1), 0), min(max(y0, y1), n - 1) + 1):
+            if grid[x * n + y] != 0:
+                return True
+    return False
+
+
 def find_first_pixel(grid, pt1, pt2):
     """
     This finds the first non-zero pixel that is encountered when following
@@ -339,18 +360,31 @@ def check_land_layers(grid_layers,
                 coarse_end[0] = div(end_positions[i,0], grid_ratios[layer]).quot
                 coarse_end[1] = div(end_positions[i,1], grid_ratios[layer]).quot
                 cur_ratio = grid_ratios[layer]
-                did_hit = c_find_first_pixel(dataptrs[layer],
-                                         widths[layer],
-                                         heights[layer],
-                                         coarse_pos[0],
-                                         coarse_pos[1],
-                                         coarse_end[0],
-                                         coarse_end[1],
-                                         &prev_x,
-                                         &prev_y,
-                                         &hit_x,
-                                         &hit_y,
-                                         )
+                if layer < num_ratios - 1:
+                    # the line between the coarse cells can miss coarse cells
+                    # that the line between the fine ones goes through,
+                    # so check all that the move could touch.
+                    did_hit = c_land_in_box(dataptrs[layer],
+                                            widths[layer],
+                                            heights[layer],
+                                            coarse_pos[0],
+                                            coarse_pos[1],
+                                            coarse_end[0],
+                                            coarse_end[1],
+                                            )
+                else:
+                    did_hit = c_find_first_pixel(dataptrs[layer],
+                                             widths[layer],
+                                             heights[layer],
+                                             coarse_pos[0],
+                                             coarse_pos[1],
+                                             coarse_end[0],
+                                             coarse_end[1],
+                                             &prev_x,
+                                             &prev_y,
+                                             &hit_x,
+                                             &hit_y,
+                                             )
                 if did_hit:
                     if layer == num_ratios - 1:
                         # hit on the lowest layer (confirmed land hit)
-- 
2.43.0


From 84044cd27a4fcb18e5dd89f9c5d8805114caaaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:31 +0000
Subject: [PATCH 17/51] fix: RasterMap.in_water off the raster

---
 py_gnome/gnome/maps/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index 7411f00..cef39f9 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -1022,7 +1022,7 @@ class RasterMap(GnomeMap):
     def _in_water_pixel(self, coord):
         # if  off the raster, so must be in water,
         # unless not on map, which should have already been checked.
-        if not self._off_raster:
+        if self._off_raster(coord):
             return True
         else:
             return not self.raster[coord[0], coord[1]] & self.land_flag
-- 
2.43.0


From ea9740dd91607e2ef7fbfd0e274b83b96d95b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:31 +0000
Subject: [PATCH 18/51] fix: projections do not change the coordinates they are
 given

---
 py_gnome/gnome/utilities/projections.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/utilities/projections.py b/py_gnome/gnome/utilities/projections.py
index 88fcf4b..6e4d5b3 100644
--- a/py_gnome/gnome/utilities/projections.py
+++ b/py_gnome/gnome/utilities/projections.py
@@ -331,7 +331,8 @@ class GeoProjection(GnomeId):
             coords += 0.5
 
         # shift to pixel center coords
-        coords -= self.offset
+        # (this makes a copy -- don't change the input)
+        coords = coords - self.offset
 
         # scale to lat-lon
         coords /= self.scale
@@ -626,7 +627,8 @@ class RectangularGridProjection(NoProjection):
         """
         coords = to_2d_coords(coords)
         # All computation in floats -- convert to int if asked for
-        coords = np.asarray(coords, dtype=np.float64)
+        # make a copy -- don't change the input
+        coords = np.array(coords, dtype=np.float64)
         pixel_coords = np.zeros_like(coords, dtype=np.float64)
 
         np.putmask(coords,
@@ -702,9 +704,9 @@ class RectangularGridProjection(NoProjection):
 
         # out of bounds gets clipped to boundary
 
-        np.clip(coords,
-                (0, 0), (self.max_lon_index, self.max_lat_index),
-                out=coords)
+        # (in a new array -- don't change the input)
+        coords = np.clip(coords,
+                         (0, 0), (self.max_lon_index, self.max_lat_index))
 
         # interpolate to lon-lat_coords
         lon = self._pixel_to_lon_interp(coords[:, 0])
-- 
2.43.0


From ac960872e31bb4eea2545a646fad366deb69b7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:44 +0000
Subject: [PATCH 19/51] fix: output schedule of backward runs, without zero
 step and after runs

---
 py_gnome/gnome/outputters/outputter.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 5641998..692f5ef 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -295,7 +295,8 @@ class Outputter(GnomeId):
         d = timedelta(seconds=time_step)
         if self.output_start_time is not None:
             if self.output_start_time != self._model_start_time:
-                if model_time + d < self.output_start_time:
+                if ((model_time + d < self.output_start_time and time_step > 0) or
+                    (model_time + d > self.output_start_time and time_step < 0)):
                     self._write_step = False
                     return
 
@@ -315,11 +316,14 @@ class Outputter(GnomeId):
             self._write_step = False
             return
 
-        if self._output_timestep is not None:
+        if self._output_timestep is None:
+            self._write_step = True
+        else:
             self._write_step = False
-            self._dt_since_lastoutput += time_step
+            # time_step is negative if the model is run backwards
+            self._dt_since_lastoutput += abs(time_step)
 
-            if abs(self._dt_since_lastoutput) >= abs(self._output_timestep):
+            if self._dt_since_lastoutput >= self._output_timestep:
                 self._write_step = True
                 self._dt_since_lastoutput = (self._dt_since_lastoutput %
                                              self._output_timestep)
@@ -467,12 +471,12 @@ class Outputter(GnomeId):
         last_step = False
 
         for step_num in range(num_time_steps):
-            if (step_num > 0 and step_num < num_time_steps - 1):
+            if step_num > 0:
                 next_ts = (self.cache.load_timestep(step_num).items()[0].
                            current_time_stamp)
                 ts = next_ts - model_time
 
-                self.prepare_for_model_step(ts.seconds, model_time)
+                self.prepare_for_model_step(ts.total_seconds(), model_time)
 
             if step_num == num_time_steps - 1:
                 last_step = True
-- 
2.43.0


From 061579bbc253d14010420afd07e393842440cf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:05 +0000
Subject: [PATCH 20/51] fix: outputters that are off do not write

---
 py_gnome/gnome/outputters/outputter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 692f5ef..39966f8 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -357,6 +357,11 @@ class Outputter(GnomeId):
         :type islast_step: bool
 
         """
+        if not self.on:
+            # nothing gets written if the outputter is off
+            self._write_step = False
+            return
+
         if step_num == 0:
             if self.output_zero_step or self._single_output_at_start:
                 self._write_step = True  # this is the default
-- 
2.43.0


From ec25216296a5094bc6d1f3aa8270fded347720b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:37 +0000
Subject: [PATCH 21/51] fix: convert both components of a wind given as u, v

---
 py_gnome/gnome/environment/wind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index ae10b47..ec53b00 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -441,7 +441,7 @@ class Wind(Timeseries, Environment):
         if from_unit != to_unit:
             data[:, 0] = uc.convert('Velocity', from_unit, to_unit, data[:, 0])
 
-            if coord_sys == ts_format.uv:
+            if tsformat(coord_sys) == ts_format.uv:
                 data[:, 1] = uc.convert('Velocity', from_unit, to_unit, data[:, 1])
 
         return data
-- 
2.43.0


From 8865f3369f4a2791a68fe85520f947453b2ae54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:37 +0000
Subject: [PATCH 22/51] fix: Wind.timeseries holds speed and direction, and the
 data passed in is left alone

---
 py_gnome/gnome/environment/wind.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index ec53b00..2bee6d5 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -30,6 +30,7 @@ from gnome.persist import (SchemaNode, drop, OneOf, Float, String, Range, Boolea
                            DefaultTupleSchema, LocalDateTime, DatetimeValue2dArraySchema,
                            FilenameSchema, validators, base_schema)
 from gnome.utilities.convert import (to_time_value_pair, tsformat, to_datetime_value_2d)
+from gnome.utilities.transforms import uv_to_r_theta_wind
 from gnome.persist.validators import convertible_to_seconds
 
 from .environment import Environment
@@ -371,8 +372,13 @@ class Wind(Timeseries, Environment):
         if self._check_timeseries(value):
             units = self.units
 
-            wind_data = self._xform_input_timeseries(value)
-            self._timeseries = wind_data.copy()
+            # copies: the data passed in is the caller's
+            wind_data = self._xform_input_timeseries(value).copy()
+            timeseries = wind_data.copy()
+            if tsformat(coord_sys) == ts_format.uv:
+                # self.timeseries is always in 'r-theta'
+                timeseries['value'] = uv_to_r_theta_wind(timeseries['value'])
+            self._timeseries = timeseries
             wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units,
                                                      'meter per second')
 
-- 
2.43.0


From e377e7ad94c02ca230c253eba66ce4f6212d7023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:37 +0000
Subject: [PATCH 23/51] fix: set_wind_data keeps the series in the units given

---
 py_gnome/gnome/environment/wind.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 2bee6d5..87656cd 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -580,15 +580,8 @@ class Wind(Timeseries, Environment):
                          basic_types.format.* (see cy_basic_types.pyx)
         """
         if self._check_timeseries(wind_data):
-            self._check_units(units)
             self.units = units
-
-            wind_data = self._xform_input_timeseries(wind_data)
-            wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units,
-                                                     'meter per second')
-
-            super(Wind, self).set_timeseries(wind_data, coord_sys)
-            self._timeseries = wind_data
+            self.new_set_timeseries(wind_data, coord_sys)
         else:
             raise ValueError('Bad timeseries as input')
 
-- 
2.43.0


From df2b087ee5955b0b96d3099923a57f8864a34267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:37 +0000
Subject: [PATCH 24/51] fix: longitude and latitude of a wind read from a file

---
 py_gnome/gnome/environment/wind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 87656cd..1696deb 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -216,8 +216,8 @@ class Wind(Timeseries, Environment):
             self.new_set_timeseries(wind_vel, coord_sys=coord_sys)
 
             if coords != (None, None):
-                self.longitude = coords[1]
-                self.latitude = coords[0]
+                self.longitude = coords[0]
+                self.latitude = coords[1]
 
             self.name = kwargs.pop('name', name)
             self.units = units
-- 
2.43.0


From 0d7f4d819fb9e8e3fd872d39d336794131a03d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:37 +0000
Subject: [PATCH 25/51] fix: an OSSM wind file without a station name can be
 read

---
 py_gnome/gnome/environment/wind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 1696deb..273ab26 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -869,7 +869,7 @@ def _read_ossm_header(infile):
     # Line 1: name
     name = infile.readline().strip()
     line_no += 1
-    name = str(filename) if not name else name
+    name = name if name else str(getattr(infile, 'name', ''))
 
     # line 2: location coords:
     line = infile.readline().strip()
-- 
2.43.0


From 812f0c35f98b81931e68380c70f385ccdc13aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:37 +0000
Subject: [PATCH 26/51] fix: a time series passed as a list has to be ascending

---
 py_gnome/gnome/utilities/timeseries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/timeseries.py b/py_gnome/gnome/utilities/timeseries.py
index 4eec7b2..13484fa 100644
--- a/py_gnome/gnome/utilities/timeseries.py
+++ b/py_gnome/gnome/utilities/timeseries.py
@@ -130,7 +130,7 @@ class Timeseries(GnomeId):
                         raise TimeseriesError('value: {} '
                                               'is not a timeseries value'
                                               .format(i))
-                return True
+                timeseries = self._xform_input_timeseries(list(timeseries))
 
         if not self._timeseries_is_ascending(timeseries):
             self.logger.error('{0} - timeseries are not in ascending order. '
-- 
2.43.0


From 18d1505552fc0ed6a9e63eb278b9173f159d2d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:46 +0000
Subject: [PATCH 27/51] fix: RiseVelocityMover crashed in backward runs
 (negative step passed as unsigned)

---
 py_gnome/gnome/cy_gnome/movers.pxd    | 2 +-
 py_gnome/lib_gnome/RiseVelocity_c.cpp | 2 +-
 py_gnome/lib_gnome/RiseVelocity_c.h   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/cy_gnome/movers.pxd b/py_gnome/gnome/cy_gnome/movers.pxd
index 38a3d1c..4635f15 100644
--- a/py_gnome/gnome/cy_gnome/movers.pxd
+++ b/py_gnome/gnome/cy_gnome/movers.pxd
@@ -58,7 +58,7 @@ cdef extern from "RiseVelocity_c.h":
         RiseVelocity_c() except +
         # double water_density
         # double water_viscosity
-        OSErr get_move(int n, unsigned long model_time, unsigned long step_len,
+        OSErr get_move(int n, unsigned long model_time, long step_len,
                        WorldPoint3D* ref, WorldPoint3D* delta,
                        double* rise_velocity,
                        short* LE_status, LEType spillType, long spillID)
diff --git a/py_gnome/lib_gnome/RiseVelocity_c.cpp b/py_gnome/lib_gnome/RiseVelocity_c.cpp
index ce59bc0..471c532 100644
--- a/py_gnome/lib_gnome/RiseVelocity_c.cpp
+++ b/py_gnome/lib_gnome/RiseVelocity_c.cpp
@@ -151,7 +151,7 @@ double GetDropletSize(double riseVelocity, double water_viscosity, double water_
 	return y1;
 }
 
-OSErr RiseVelocity_c::get_move(int n, unsigned long model_time, unsigned long step_len,
+OSErr RiseVelocity_c::get_move(int n, unsigned long model_time, long step_len,
 							   WorldPoint3D *ref, WorldPoint3D *delta,
 							   double *rise_velocity,
 							   short *LE_status, LEType spillType, long spill_ID)
diff --git a/py_gnome/lib_gnome/RiseVelocity_c.h b/py_gnome/lib_gnome/RiseVelocity_c.h
index 3352092..f1a7e3c 100644
--- a/py_gnome/lib_gnome/RiseVelocity_c.h
+++ b/py_gnome/lib_gnome/RiseVelocity_c.h
@@ -39,7 +39,7 @@ public:
 	virtual WorldPoint3D GetMove(const Seconds& model_time, Seconds timeStep,
 								 long setIndex, long leIndex, LERec *theLE, LETYPE leType);
 
-	OSErr get_move(int n, unsigned long model_time, unsigned long step_len,
+	OSErr get_move(int n, unsigned long model_time, long step_len,
 				   WorldPoint3D *ref, WorldPoint3D *delta,
 				  // double *rise_velocity, double *density, double *droplet_size,
 				   double *rise_velocity,
-- 
2.43.0


From 7e1718066ba812f0457b114bbc438037b3863b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:30 +0000
Subject: [PATCH 28/51] fix: RandomMover3D crashed in backward runs (negative
 step passed as unsigned, then under a square root)

---
 py_gnome/gnome/cy_gnome/movers.pxd      | 2 +-
 py_gnome/lib_gnome/RandomVertical_c.cpp | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/cy_gnome/movers.pxd b/py_gnome/gnome/cy_gnome/movers.pxd
index 4635f15..8fa4bbd 100644
--- a/py_gnome/gnome/cy_gnome/movers.pxd
+++ b/py_gnome/gnome/cy_gnome/movers.pxd
@@ -44,7 +44,7 @@ cdef extern from "RandomVertical_c.h":
         double fHorizontalDiffusionCoefficientBelowML
         double fMixedLayerDepth
         bool bSurfaceIsAllowed
-        OSErr get_move(int n, unsigned long model_time, unsigned long step_len,
+        OSErr get_move(int n, unsigned long model_time, long step_len,
                        WorldPoint3D* ref, WorldPoint3D* delta,
                        short* LE_status, LEType spillType, long spillID)
 
diff --git a/py_gnome/lib_gnome/RandomVertical_c.cpp b/py_gnome/lib_gnome/RandomVertical_c.cpp
index 6abcca6..a668659 100644
--- a/py_gnome/lib_gnome/RandomVertical_c.cpp
+++ b/py_gnome/lib_gnome/RandomVertical_c.cpp
@@ -131,9 +131,9 @@ WorldPoint3D RandomVertical_c::GetMove (const Seconds& model_time, Seconds timeS
 		rand1 = GetRandomFloat(-1.0, 1.0);
 		rand2 = GetRandomFloat(-1.0, 1.0);
 		if ((*theLE).z>mixedLayerDepth)
-			horizontalDiffusionCoefficient = sqrt(6.*(fHorizontalDiffusionCoefficientBelowML/10000.)*timeStep)/METERSPERDEGREELAT;
+			horizontalDiffusionCoefficient = sqrt(6.*(fHorizontalDiffusionCoefficientBelowML/10000.)*fabs(timeStep))/METERSPERDEGREELAT;
 		else
-			horizontalDiffusionCoefficient = sqrt(6.*(fHorizontalDiffusionCoefficient/10000.)*timeStep)/METERSPERDEGREELAT;
+			horizontalDiffusionCoefficient = sqrt(6.*(fHorizontalDiffusionCoefficient/10000.)*fabs(timeStep))/METERSPERDEGREELAT;
 		dLong = (rand1 * horizontalDiffusionCoefficient )/ LongToLatRatio3 (refPoint.pLat);
 		dLat  = rand2 * horizontalDiffusionCoefficient;		
 		
@@ -151,7 +151,7 @@ WorldPoint3D RandomVertical_c::GetMove (const Seconds& model_time, Seconds timeS
 		if ((*theLE).z<=mixedLayerDepth)
 		{
 			if (fVerticalDiffusionCoefficient==0) return deltaPoint;	
-			verticalDiffusionCoefficient = sqrt(6.*(fVerticalDiffusionCoefficient/10000.)*timeStep);
+			verticalDiffusionCoefficient = sqrt(6.*(fVerticalDiffusionCoefficient/10000.)*fabs(timeStep));
 			rand = GetRandomFloat(-1.0, 1.0);
 			deltaPoint.z = rand*verticalDiffusionCoefficient;
 			//z = deltaPoint.z;	// will add this on to the next move
@@ -176,7 +176,7 @@ WorldPoint3D RandomVertical_c::GetMove (const Seconds& model_time, Seconds timeS
 		if (mixedLayerDepth==depthAtPoint) /*return deltaPoint*/goto dochecks;	// in this case don't need to do anything more
 		// now apply below mixed layer depth diffusion to all particles above and below
 		if (fVerticalBottomDiffusionCoefficient==0/* && z==0*/) /*return deltaPoint*/goto dochecks;	// don't return until do checks
-		verticalDiffusionCoefficient = sqrt(6.*(fVerticalBottomDiffusionCoefficient/10000.)*timeStep);
+		verticalDiffusionCoefficient = sqrt(6.*(fVerticalBottomDiffusionCoefficient/10000.)*fabs(timeStep));
 		rand = GetRandomFloat(-1.0, 1.0);
 		deltaPoint.z = rand*verticalDiffusionCoefficient;
 		
-- 
2.43.0


From 355397aee01241d1ed12320e7e5b26e928cce433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:32 +0000
Subject: [PATCH 29/51] fix: keep the density of a non-weathering substance
 when it is saved and loaded

---
 py_gnome/gnome/spills/substance.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/spills/substance.py b/py_gnome/gnome/spills/substance.py
index fb81d66..ab2bd62 100644
--- a/py_gnome/gnome/spills/substance.py
+++ b/py_gnome/gnome/spills/substance.py
@@ -24,7 +24,7 @@ from gnome.ops.density import init_density
 
 from gnome.persist import (Float, Int, SchemaNode,
                            Boolean, ObjTypeSchema, GeneralGnomeObjectSchema,
-                           TupleSchema, Range)
+                           TupleSchema, Range, drop)
 
 from gnome.spills.initializers import (InitWindages,
                                        InitRiseVelFromDropletSizeFromDist,
@@ -57,7 +57,8 @@ class SubstanceSchema(ObjTypeSchema):
 
 
 class NonWeatheringSubstanceSchema(SubstanceSchema):
-    pass
+    # a setting here -- an oil computes it from its data
+    standard_density = SchemaNode(Float(), missing=drop, save=True, update=True)
 
 
 class Substance(GnomeId):
-- 
2.43.0


From 986d58433294eb41ff673e12914c1cd50ef8c958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:52 +0000
Subject: [PATCH 30/51] fix: SubsurfaceRelease can be loaded again, with its
 distribution

---
 py_gnome/gnome/spills/release.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 19e1daa..fe38921 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -30,7 +30,7 @@ from colander import (String, SchemaNode, SequenceSchema, drop, Int, Float,
                       Boolean)
 
 from gnome.persist.base_schema import (ObjTypeSchema, WorldPoint, FeatureCollectionSchema,
-                                       LongLatBounds, IntPair)
+                                       LongLatBounds, IntPair, GeneralGnomeObjectSchema)
 from gnome.persist.extend_colander import LocalDateTime, FilenameSchema
 
 from gnome.basic_types import world_point_type
@@ -50,6 +50,10 @@ from gnome.constants import gravity
 from gnome.ops import default_constants
 
 from gnome.utilities.time_utils import TZOffset, TZOffsetSchema
+from gnome.utilities.distributions import (UniformDistributionSchema,
+                                           NormalDistributionSchema,
+                                           LogNormalDistributionSchema,
+                                           WeibullDistributionSchema)
 #from gnome.exceptions import ReferencedObjectNotSet
 from .initializers import (InitRiseVelFromDropletSizeFromDist,
                            InitRiseVelFromDist)
@@ -1431,6 +1435,16 @@ class SubsurfaceReleaseSchema(BaseReleaseSchema):
     end_position = WorldPoint(
         missing=drop, save=True, update=True
     )
+    distribution = GeneralGnomeObjectSchema(
+        acceptable_schemas=[UniformDistributionSchema,
+                            NormalDistributionSchema,
+                            LogNormalDistributionSchema,
+                            WeibullDistributionSchema],
+        missing=drop, save=True, update=True, save_reference=True
+    )
+    distribution_type = SchemaNode(
+        String(), missing=drop, save=True, update=False
+    )
     description = 'SubsurfaceRelease object schema'
 
 class SubsurfaceRelease(PointLineRelease):
@@ -1464,9 +1478,9 @@ class SubsurfaceRelease(PointLineRelease):
 
         # remove plume_initializers method and move stuff here
         if distribution_type == 'droplet_size':
-               self._init_rise_vel = InitRiseVelFromDropletSizeFromDist(distribution=distribution, **kwargs)
+               self._init_rise_vel = InitRiseVelFromDropletSizeFromDist(distribution=distribution)
         elif distribution_type == 'rise_velocity':
-               self._init_rise_vel = InitRiseVelFromDist(distribution=distribution,**kwargs)
+               self._init_rise_vel = InitRiseVelFromDist(distribution=distribution)
         else:
                raise TypeError('distribution_type must be either droplet_size or '
                                'rise_velocity')
-- 
2.43.0


From ecf9fcaad509c0d20a4bf3910e60f010ea947284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:53 +0000
Subject: [PATCH 31/51] fix: GridRelease takes the settings of a Release, so
 that a saved one loads

---
 py_gnome/gnome/spills/release.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index fe38921..4daa424 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -1037,7 +1037,7 @@ class GridRelease(Release):
 
     _schema = GridReleaseSchema
 
-    def __init__(self, release_time, bounds, resolution, release_mass=0):
+    def __init__(self, release_time, bounds, resolution, release_mass=0, **kwargs):
         """
         Release from a 2-D grid of points.
 
@@ -1076,7 +1076,8 @@ class GridRelease(Release):
         super().__init__(release_time=release_time,
                          # custom_positions=positions,
                          # num_elements=len(positions),
-                         release_mass=release_mass
+                         release_mass=release_mass,
+                         **kwargs
                          )
     @property
     def num_elements(self):
-- 
2.43.0


From 8e52c0b4a8c5549a9e5dbccdef2c9cb2f00db051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:59 +0000
Subject: [PATCH 32/51] fix: a CurrentMover with a SteadyUniformCurrent can be
 saved

---
 py_gnome/gnome/movers/py_current_movers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_current_movers.py b/py_gnome/gnome/movers/py_current_movers.py
index 6297794..0685bad 100644
--- a/py_gnome/gnome/movers/py_current_movers.py
+++ b/py_gnome/gnome/movers/py_current_movers.py
@@ -14,7 +14,7 @@ from gnome.utilities.projections import FlatEarthProjection
 from gnome.utilities.time_utils import TZOffset
 
 
-from gnome.environment import GridCurrent
+from gnome.environment import GridCurrent, SteadyUniformCurrent
 from gnome.environment.gridded_objects_base import Grid_U, VectorVariableSchema
 
 from gnome.movers.movers import TimeRangeSchema, PyMoverSchema
@@ -30,7 +30,8 @@ class CurrentMoverSchema(PyMoverSchema):
     current = GeneralGnomeObjectSchema(save=True, update=True,
                                        save_reference=True,
                                        acceptable_schemas=[VectorVariableSchema,
-                                                           GridCurrent._schema]
+                                                           GridCurrent._schema,
+                                                           SteadyUniformCurrent._schema]
                                        )
     uncertain_along = SchemaNode(
         Float(), missing=drop, save=True, update=True
-- 
2.43.0


From 21c4c718377327e7fc77795029ace90374ace9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:05 +0000
Subject: [PATCH 33/51] fix: keep weathering_substeps when a model is saved and
 loaded

---
 py_gnome/gnome/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 6e53348..e19f929 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -96,7 +96,7 @@ from gnome.utilities.appearance import AppearanceSchema
 class ModelSchema(ObjTypeSchema):
     'Colander schema for Model object'
     time_step = SchemaNode(Float())
-    weathering_substeps = SchemaNode(Int(), read_only=True)
+    weathering_substeps = SchemaNode(Int(), missing=drop)
     start_time = SchemaNode(
         extend_colander.LocalDateTime(),
         validator=validators.convertible_to_seconds
-- 
2.43.0


From 79dfb033f590df91386be8b81b9fced6f528c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:11 +0000
Subject: [PATCH 34/51] fix: Wind.update_from_dict reports whether anything
 changed

---
 py_gnome/gnome/environment/wind.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 273ab26..1c7f104 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -299,12 +299,19 @@ class Wind(Timeseries, Environment):
 
 
     def update_from_dict(self, dict_, refs=None):
+        updated = False
         if 'units' in dict_:
             # enforce updating of units before timeseries
+            units = self.units
             self.units = dict_.pop('units')
+            updated = self.units != units
         if 'timeseries' in dict_:
+            old = self.timeseries
             self.timeseries = WindTimeSeriesSchema().deserialize(dict_.pop('timeseries'))
-        super(Wind, self).update_from_dict(dict_, refs=refs)
+            if not (np.array_equal(old['time'], self.timeseries['time']) and
+                    np.array_equal(old['value'], self.timeseries['value'])):
+                updated = True
+        return super(Wind, self).update_from_dict(dict_, refs=refs) or updated
 
     def _check_units(self, units):
         '''
-- 
2.43.0


From d57801bb4707a09b42089b92d5157a5b024f97d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:33 +0000
Subject: [PATCH 35/51] fix: RunningAverage values at a time can be read

---
 py_gnome/gnome/environment/running_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/running_average.py b/py_gnome/gnome/environment/running_average.py
index fc7e00e..e0c9180 100644
--- a/py_gnome/gnome/environment/running_average.py
+++ b/py_gnome/gnome/environment/running_average.py
@@ -187,7 +187,7 @@ class RunningAverage(Environment):
             timeval = np.zeros((len(datetime), ),
                                dtype=basic_types.time_value_pair)
             timeval['time'] = date_to_sec(datetime)
-            timeval['value'] = self.ossm.get_time_value(timeval['time'])
+            (timeval['value'], _err) = self.ossm.get_time_value(timeval['time'])
 
             datetimeval = to_datetime_value_2d(timeval, 'uv')
 
-- 
2.43.0


From 75d26a05097747136b7d20a265d175592c4a65f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:33 +0000
Subject: [PATCH 36/51] fix: running average takes the nearest value of the
 series outside of its range

---
 py_gnome/lib_gnome/OSSMTimeValue_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/lib_gnome/OSSMTimeValue_c.cpp b/py_gnome/lib_gnome/OSSMTimeValue_c.cpp
index 19721ac..27dd346 100644
--- a/py_gnome/lib_gnome/OSSMTimeValue_c.cpp
+++ b/py_gnome/lib_gnome/OSSMTimeValue_c.cpp
@@ -1482,12 +1482,12 @@ TimeValuePairH OSSMTimeValue_c::CalculateRunningAverage(long pastHoursToAverage,
 				err = GetDataStartTime(&start_time);
 				err = GetDataEndTime(&end_time);
 
-                if (model_time < start_time) {
+                if (timeToAverage < start_time) {
                     err = GetTimeValue(start_time, &velocity);
 
                     if (err) return 0;
                 }
-                if (model_time > end_time) {
+                if (timeToAverage > end_time) {
                     err = GetTimeValue(end_time, &velocity);
 
                     if (err) return 0;
-- 
2.43.0


From e1577fb0d48f11d014b45000c4b20a88c81b5e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:52 +0000
Subject: [PATCH 37/51] fix: geojson files hold the forecast elements as well
 as the uncertain ones

---
 py_gnome/gnome/outputters/geo_json.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/geo_json.py b/py_gnome/gnome/outputters/geo_json.py
index 1d9c25d..5c4ad66 100644
--- a/py_gnome/gnome/outputters/geo_json.py
+++ b/py_gnome/gnome/outputters/geo_json.py
@@ -163,8 +163,9 @@ class TrajectoryGeoJsonOutput(Outputter):
                        'uncertain': uc_geojson}
 
         if self.output_dir:
-            output_info['output_filename'] = str(self.output_to_file(c_geojson, step_num))
-            self.output_to_file(uc_geojson, step_num)
+            # one file per step, with the elements of both spill containers
+            geojson = FeatureCollection(c_features + uc_features)
+            output_info['output_filename'] = str(self.output_to_file(geojson, step_num))
 
         return output_info
 
-- 
2.43.0


From fe519902054d9d52116a417d77f32eff202589c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:52 +0000
Subject: [PATCH 38/51] fix: TrajectoryGeoJsonOutput(round_data=False) does not
 round

---
 py_gnome/gnome/outputters/geo_json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/geo_json.py b/py_gnome/gnome/outputters/geo_json.py
index 5c4ad66..8ada94c 100644
--- a/py_gnome/gnome/outputters/geo_json.py
+++ b/py_gnome/gnome/outputters/geo_json.py
@@ -199,7 +199,9 @@ class TrajectoryGeoJsonOutput(Outputter):
 
         # refactored to simply use the correct python type:
         if issubclass(data_array.dtype.type, float):
-            data = data_array.round(self.round_to).astype(float).tolist()
+            if self.round_data:
+                data_array = data_array.round(self.round_to)
+            data = data_array.astype(float).tolist()
         elif issubclass(data_array.dtype.type, np.integer):
             data = data_array.astype(int).tolist()
         else:
-- 
2.43.0


From 89e44b5455d6b0654e4e5a2dfd681ca2c717c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:52 +0000
Subject: [PATCH 39/51] fix: OilBudgetOutput can be switched off

---
 py_gnome/gnome/outputters/oil_budget.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/oil_budget.py b/py_gnome/gnome/outputters/oil_budget.py
index 665c5ee..4830a56 100644
--- a/py_gnome/gnome/outputters/oil_budget.py
+++ b/py_gnome/gnome/outputters/oil_budget.py
@@ -72,8 +72,8 @@ class OilBudgetOutput(BaseMassBalanceOutputter, OutputterFilenameMixin):
         self.file_format = file_format
 
         super(OilBudgetOutput, self).__init__(filename=filename,
-                                              cache=None,
-                                              on=True,
+                                              cache=cache,
+                                              on=on,
                                               output_timestep=output_timestep,
                                               # these always should be this way for this
                                               # outputter
@@ -92,6 +92,9 @@ class OilBudgetOutput(BaseMassBalanceOutputter, OutputterFilenameMixin):
         """
         start the csv file
         """
+        if not self.on:
+            return
+
         super(OilBudgetOutput, self).prepare_for_model_run(model_start_time,
                                                            spills,
                                                            **kwargs)
-- 
2.43.0


From 50948a162de45e38f759b9eaa102f825461af1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:52 +0000
Subject: [PATCH 40/51] fix: BinaryOutput zips only the files it wrote

---
 py_gnome/gnome/outputters/binary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/binary.py b/py_gnome/gnome/outputters/binary.py
index 10bdddf..b8d26d3 100644
--- a/py_gnome/gnome/outputters/binary.py
+++ b/py_gnome/gnome/outputters/binary.py
@@ -158,7 +158,8 @@ class BinaryOutput(OutputterFilenameMixin,Outputter):
 
 
         if islast_step:
-            num_files = self.file_num + 1
+            # this step's files are only there if it was written
+            num_files = self.file_num + (1 if self._write_step else 0)
             self._zip_binary_files(num_files)
             self.cleaned_up = True
 
-- 
2.43.0


From c35f9d5a1d51c78588aeefaa8cd5a9ca10ea6b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:51 +0000
Subject: [PATCH 41/51] fix: ROC Burn and Skim write the mass they take back to
 the spill container

---
 py_gnome/gnome/weatherers/roc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py_gnome/gnome/weatherers/roc.py b/py_gnome/gnome/weatherers/roc.py
index c66fa63..1ce5126 100644
--- a/py_gnome/gnome/weatherers/roc.py
+++ b/py_gnome/gnome/weatherers/roc.py
@@ -2047,6 +2047,8 @@ class Burn(Response):
                 self.logger.debug('{0} amount burned for {1}: {2}'
                                   .format(self._pid, substance.name, burned))
 
+        sc.update_from_fatedataview()
+
 
 class SkimUnitsSchema(MappingSchema):
     storage = SchemaNode(String(),
@@ -2454,6 +2456,8 @@ class Skim(Response):
 
                 platform_balance['num_fills'] += self._ts_num_fills
 
+        sc.update_from_fatedataview()
+
     def _getRecoveryEfficiency(self):
         # scaffolding method will eventually include logic for calculating
         # recovery efficiency based on wind and oil viscosity.
-- 
2.43.0


From 1dca40a58bcd7a0ac0da453fa2ff9cb9db740828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:53 +0000
Subject: [PATCH 42/51] fix: ROC Burn: a boom that was not filled burns for its
 share of the time

---
 py_gnome/gnome/weatherers/roc.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/weatherers/roc.py b/py_gnome/gnome/weatherers/roc.py
index 1ce5126..7e28853 100644
--- a/py_gnome/gnome/weatherers/roc.py
+++ b/py_gnome/gnome/weatherers/roc.py
@@ -1926,8 +1926,8 @@ class Burn(Response):
                 # this is a special case if the boom didn't fill up all the way
                 # due to lack of oil or somethig.
                 self._burn_time_remaining = (self._burn_time *
-                                             (1 - self._boom_capacity) /
-                                             self.get('_boom_capacity_max'))
+                                             (1 - self._boom_capacity /
+                                              self.get('_boom_capacity_max')))
 
         self._is_boom_full = False
 
@@ -2019,7 +2019,10 @@ class Burn(Response):
 
                 if actual_collected != collected:
                     # ran out of oil while collecting har har...
-                    self._boom_capacity += collected - actual_collected
+                    self._boom_capacity += uc.convert(
+                        'Volume', 'm^3', 'ft^3',
+                        (collected - actual_collected) /
+                        self._boomed_density)
 
                 self.logger.debug('{0} amount boomed for {1}: {2}'
                                   .format(self._pid,
-- 
2.43.0


From 62141b00db210d2dd0e661637dc1102015914e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:51 +0000
Subject: [PATCH 43/51] fix: ROC response systems that are switched off do
 nothing

---
 py_gnome/gnome/weatherers/roc.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/py_gnome/gnome/weatherers/roc.py b/py_gnome/gnome/weatherers/roc.py
index 7e28853..ef28d85 100644
--- a/py_gnome/gnome/weatherers/roc.py
+++ b/py_gnome/gnome/weatherers/roc.py
@@ -128,6 +128,9 @@ class Response(Weatherer):
         self.units[attr] = unit
 
     def _is_active(self, model_time, time_step):
+        if not self.on:
+            return False
+
         for t in self.timeseries:
             if (model_time >= t[0] and
                     model_time + timedelta(seconds=time_step / 2) <= t[1]):
@@ -1577,6 +1580,9 @@ class Disperse(Response):
                         np.mean(sc['density'][idxs])))
 
     def weather_elements(self, sc, time_step, model_time):
+        if not self.on:
+            return
+
         if not self.active or len(sc) == 0:
             sc.mass_balance['systems'][self.id]['state'] = []
             return
@@ -1991,6 +1997,9 @@ class Burn(Response):
         Remove mass from each le equally for now, no flagging for not
         just make sure it's from floating oil.
         '''
+        if not self.on:
+            return
+
         if not self.active or len(sc) == 0:
             sc.mass_balance['systems'][self.id]['state'] = []
             return
@@ -2422,6 +2431,9 @@ class Skim(Response):
         Remove mass from each le equally for now, no flagging for now
         just make sure the mass is from floating oil.
         '''
+        if not self.on:
+            return
+
         if not self.active or len(sc) == 0:
             sc.mass_balance['systems'][self.id]['state'] = []
             return
-- 
2.43.0


From eb6553c1f861a487c499ec233f64b17205f6d69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:05 +0000
Subject: [PATCH 44/51] fix: ROC response systems start afresh when a model is
 run again

---
 py_gnome/gnome/weatherers/roc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_gnome/gnome/weatherers/roc.py b/py_gnome/gnome/weatherers/roc.py
index ef28d85..242f3e7 100644
--- a/py_gnome/gnome/weatherers/roc.py
+++ b/py_gnome/gnome/weatherers/roc.py
@@ -807,6 +807,7 @@ class Disperse(Response):
 
         self._remaining_dispersant = self.platform.get('payload', 'm^3')
         self.oil_treated_this_timestep = 0
+        self._disp_sprayed_this_timestep = 0
 
         if 'systems' not in sc.mass_balance:
             sc.mass_balance['systems'] = {}
@@ -1789,6 +1790,8 @@ class Burn(Response):
         self._is_boom_full = False
 
         self._time_burning = 0
+        self._burn_time = None
+        self._burn_rate = None
 
     def prepare_for_model_step(self, sc, time_step, model_time):
         '''
@@ -2195,6 +2198,8 @@ class Skim(Response):
                                                    'state': []}
 
         self._is_collecting = True
+        self._is_transiting = False
+        self._is_offloading = False
 
     def prepare_for_model_step(self, sc, time_step, model_time):
         if (self._is_active(model_time, time_step) or
-- 
2.43.0


From 5ab9166d02520239718e259a29270f3e2d0cce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:05 +0000
Subject: [PATCH 45/51] fix: dispersant sprayed in a step is booked once

---
 py_gnome/gnome/weatherers/roc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/weatherers/roc.py b/py_gnome/gnome/weatherers/roc.py
index 242f3e7..0951fc7 100644
--- a/py_gnome/gnome/weatherers/roc.py
+++ b/py_gnome/gnome/weatherers/roc.py
@@ -1635,7 +1635,7 @@ class Disperse(Response):
             sc['fate_status'][idxs] = new_status
 
             self.oil_treated_this_timestep = 0
-            self.disp_sprayed_this_timestep = 0
+            self._disp_sprayed_this_timestep = 0
 
 
 class BurnUnitsSchema(MappingSchema):
-- 
2.43.0


From 8943e2577e0938f567a7ca0c78fb86e2227ec6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:05 +0000
Subject: [PATCH 46/51] fix: manual beaching over part of a step removes that
 part's oil

---
 py_gnome/gnome/weatherers/manual_beaching.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/weatherers/manual_beaching.py b/py_gnome/gnome/weatherers/manual_beaching.py
index b95f09a..e3da679 100644
--- a/py_gnome/gnome/weatherers/manual_beaching.py
+++ b/py_gnome/gnome/weatherers/manual_beaching.py
@@ -268,10 +268,15 @@ class Beaching(RemoveMass, Weatherer):
         if not self.active or len(sc) == 0:
             return
 
+        # the weathering time step can be a part of the model time step, and
+        # the beaching can begin or end within it
+        self._set__timestep(time_step, model_time)
+        start_time = max(model_time, self.active_range[0])
+
         for substance, data in sc.itersubstancedata(self.array_types):
             if len(data['mass']) == 0:
                 continue
-            rm_mass = self._remove_mass(self._timestep, model_time, substance)
+            rm_mass = self._remove_mass(self._timestep, start_time, substance)
             rm_mass_frac = rm_mass / data['mass'].sum()
             if rm_mass_frac > 1.0:
                 rm_mass_frac = 1.0
-- 
2.43.0


From 98b8c7d86b9ee1e038bbda3c7fe16df5534fb5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:05 +0000
Subject: [PATCH 47/51] fix: a Beaching with water can be saved

---
 py_gnome/gnome/weatherers/manual_beaching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/weatherers/manual_beaching.py b/py_gnome/gnome/weatherers/manual_beaching.py
index e3da679..8040913 100644
--- a/py_gnome/gnome/weatherers/manual_beaching.py
+++ b/py_gnome/gnome/weatherers/manual_beaching.py
@@ -22,7 +22,7 @@ from gnome.persist import (validators, base_schema, DefaultTupleSchema,
 
 from .core import WeathererSchema
 from .cleanup import RemoveMass
-from gnome.environment.environment import WaterSchema
+from gnome.environment.water import WaterSchema
 
 
 class BeachingTupleSchema(DefaultTupleSchema):
-- 
2.43.0


From 247f2144928f671ac78f26ae67f48744a7dfc485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:05 +0000
Subject: [PATCH 48/51] fix: ROC Burn lengths are saved as given

---
 py_gnome/gnome/weatherers/roc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/weatherers/roc.py b/py_gnome/gnome/weatherers/roc.py
index 0951fc7..90e1db5 100644
--- a/py_gnome/gnome/weatherers/roc.py
+++ b/py_gnome/gnome/weatherers/roc.py
@@ -1658,13 +1658,13 @@ class BurnUnitsSchema(MappingSchema):
 
 class BurnSchema(ResponseSchema):
     offset = SchemaNode(
-        Int(), save=True, update=True
+        Float(), save=True, update=True
     )
     boom_length = SchemaNode(
-        Int(), save=True, update=True
+        Float(), save=True, update=True
     )
     boom_draft = SchemaNode(
-        Int(), save=True, update=True
+        Float(), save=True, update=True
     )
     speed = SchemaNode(
         Float(), save=True, update=True
-- 
2.43.0


From dc35d631aa3f76af18bce957f59b6a791755921f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:38 +0000
Subject: [PATCH 49/51] fix: an OilBudgetOutput loads back with its filename

---
 py_gnome/gnome/outputters/oil_budget.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/py_gnome/gnome/outputters/oil_budget.py b/py_gnome/gnome/outputters/oil_budget.py
index 4830a56..80dc7e5 100644
--- a/py_gnome/gnome/outputters/oil_budget.py
+++ b/py_gnome/gnome/outputters/oil_budget.py
@@ -10,20 +10,32 @@ import csv
 from .weathering import BaseMassBalanceOutputter
 from .outputter import OutputterFilenameMixin
 from . import BaseOutputterSchema
-from gnome.persist import Boolean, SchemaNode
+from gnome.persist import (Boolean, FilenameSchema, LocalDateTime, SchemaNode,
+                           String, drop)
 
 
 class OilBudgetOutputSchema(BaseOutputterSchema):
-    # these fields are saved in the base class so need to override
-    #pass
+    # these fields are saved in the base class so need to override:
+    # they are always the same for this outputter
     output_zero_step = SchemaNode(
-        Boolean(), save=False, update=False
+        Boolean(), save=False, update=False, read_only=True
     )
     output_last_step = SchemaNode(
-        Boolean(), save=False, update=False
+        Boolean(), save=False, update=False, read_only=True
     )
     output_single_step = SchemaNode(
-        Boolean(), save=False, update=False
+        Boolean(), save=False, update=False, read_only=True
+    )
+    output_start_time = SchemaNode(
+        LocalDateTime(), missing=drop,
+        save=False, update=False, read_only=True
+    )
+    surface_conc = SchemaNode(
+        String(allow_empty=True), missing=drop,
+        save=False, update=False, read_only=True
+    )
+    filename = FilenameSchema(
+        missing=drop, save=True, update=True, test_equal=False
     )
 
 class OilBudgetOutput(BaseMassBalanceOutputter, OutputterFilenameMixin):
-- 
2.43.0


From c7b9a08dfa968521d9c77976928629abc95b9455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:20 +0000
Subject: [PATCH 50/51] fix: Model.update reports movers and other parts added,
 removed or reordered

---
 py_gnome/gnome/model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index e19f929..a77b195 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -447,9 +447,16 @@ class Model(GnomeId):
             node = self._schema().get(name)
             if name in attrs:
                 if name != 'spills':
+                    # collections are updated in place
+                    old = getattr(self, name)
+                    if isinstance(old, OrderedCollection):
+                        old = OrderedCollection(old[:], dtype=old.dtype)
                     attrs[name] = self._schema.process_subnode(node,self,getattr(self,name),name,attrs,attrs[name],refs)
                     if attrs[name] is drop:
                         del attrs[name]
+                    elif (isinstance(old, OrderedCollection) and
+                            self._attr_changed(old, attrs[name])):
+                        updated = True
                 else:
                     oldspills = OrderedCollection(self.spills
                                                   ._spill_container.spills[:],
-- 
2.43.0


From 422ef1cbdf2754041db7f1f5cb3408b9e3b899f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:20 +0000
Subject: [PATCH 51/51] fix: IceAwareWind keeps winds with negative components,
 and weathering can use it

---
 py_gnome/gnome/environment/environment_objects.py | 14 +++++++++++---
 py_gnome/gnome/weatherers/core.py                 |  3 ++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/environment/environment_objects.py b/py_gnome/gnome/environment/environment_objects.py
index c904e1d..8bf0a17 100644
--- a/py_gnome/gnome/environment/environment_objects.py
+++ b/py_gnome/gnome/environment/environment_objects.py
@@ -958,7 +958,14 @@ class IceAwareWind(GridWind):
                                               units=units,
                                               extrapolate=extrapolate,
                                               **kwargs)
-        wind_v[wind_v < min_val] = min_val
+        coord_sys = kwargs.get('coord_sys', 'uv')
+        if coord_sys == 'theta':
+            return wind_v  # ice slows the wind and leaves its direction
+
+        if coord_sys in ('r', 'r-theta'):
+            # the minimum is one of the speed: components can be negative
+            speed = wind_v[:, 0]
+            speed[speed < min_val] = min_val
         #assert len(cctn.shape) == 2
 
         if np.any(cctn >= 0.2):
@@ -972,12 +979,13 @@ class IceAwareWind(GridWind):
             ice_vel_factor[interp_mask] = ((ice_vel_factor[interp_mask] - 0.2) * 10) / 6
 
             vels = wind_v.copy()
-            vels[ice_mask.reshape(-1)] = 0
+            speeds = vels[:, :1] if coord_sys == 'r-theta' else vels
+            speeds[ice_mask.reshape(-1)] = 0
             #vels[vels_mask] = 0
 
             # scale winds from 100-0% depending on ice coverage
             # 100% wind up to 0.2 coverage, 0% wind at >0.8 coverage
-            vels[:] = vels[:] * (1 - ice_vel_factor)
+            speeds[:] = speeds[:] * (1 - ice_vel_factor)
 
             return vels
         else:
diff --git a/py_gnome/gnome/weatherers/core.py b/py_gnome/gnome/weatherers/core.py
index 2df1976..2324370 100644
--- a/py_gnome/gnome/weatherers/core.py
+++ b/py_gnome/gnome/weatherers/core.py
@@ -110,7 +110,8 @@ class Weatherer(Process):
             Wrapper for the weatherers so they can get wind speeds
         '''
         if hasattr(self.wind,'ice_concentration'):
-            retval = self.wind.at(points, model_time, min_val, coord_sys=coord_sys).reshape(-1)
+            retval = self.wind.at(points, model_time, min_val=min_val,
+                                  coord_sys=coord_sys).reshape(-1)
         else:
             retval = self.wind.at(points, model_time, coord_sys=coord_sys).reshape(-1)
             retval[retval < min_val] = min_val
-- 
2.43.0

