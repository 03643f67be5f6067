From f524fda673cc42bdc112c961189e1d5204a6cb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 01/14] fix: native fill sweeps must include the last row and
 column

The native sweeps stopped one row and one column short of the requested
area, so the iteration could end before the surface was settled, and 3
row or 3 column rasters were refused.
---
 malstroem/algorithms/speedups/_fill.pyx | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/malstroem/algorithms/speedups/_fill.pyx b/malstroem/algorithms/speedups/_fill.pyx
index 293699a..6c0353a 100644
--- a/malstroem/algorithms/speedups/_fill.pyx
+++ b/malstroem/algorithms/speedups/_fill.pyx
@@ -28,21 +28,22 @@ cimport cython
 @cython.boundscheck(False) # turn of bounds-checking for entire function
 @cython.wraparound(False)
 def _fill_terrain(np.ndarray[DTYPE_t_FILL, ndim=2] dtm not None, np.ndarray[DTYPE_t_FILL, ndim=2] filled not None, unsigned int fromrow, unsigned int torow, unsigned int fromcol, unsigned int tocol):
-    if fromrow == torow or fromcol == tocol:
-        raise ValueError('Width or height of processing area is zero')
     cdef int rowstep = 1 if torow > fromrow else -1
     cdef int colstep = 1 if tocol > fromcol else -1
+    # torow and tocol are part of the processing area
+    cdef unsigned int endrow = <unsigned int>(torow + rowstep)
+    cdef unsigned int endcol = <unsigned int>(tocol + colstep)
 
     cdef DTYPE_t_FILL filled_value, dtm_value, min_value, new_value
     cdef unsigned int up, down, left, right, row, col
 
     cdef int changes = 0
     row = fromrow
-    while row != torow:
+    while row != endrow:
         up = <unsigned int>(row - 1)
         down = <unsigned int>(row + 1)
         col = fromcol
-        while col != tocol:
+        while col != endcol:
             filled_value = filled[row,col]
             dtm_value = dtm[row, col]
             if(filled_value > dtm_value):
@@ -72,21 +73,22 @@ def _fill_terrain(np.ndarray[DTYPE_t_FILL, ndim=2] dtm not None, np.ndarray[DTYP
 @cython.boundscheck(False) # turn of bounds-checking for entire function
 @cython.wraparound(False)
 def _fill_terrain_no_flats(np.ndarray[DTYPE_t_DTM, ndim=2] dtm not None, np.ndarray[DTYPE_t_FILLNOFLAT, ndim=2] filled not None, unsigned int fromrow, unsigned int torow, unsigned int fromcol, unsigned int tocol, DTYPE_t_FILLNOFLAT short, DTYPE_t_FILLNOFLAT diag):
-    if fromrow == torow or fromcol == tocol:
-        raise ValueError('Width or height of processing area is zero')
     cdef int rowstep = 1 if torow > fromrow else -1
     cdef int colstep = 1 if tocol > fromcol else -1
+    # torow and tocol are part of the processing area
+    cdef unsigned int endrow = <unsigned int>(torow + rowstep)
+    cdef unsigned int endcol = <unsigned int>(tocol + colstep)
 
     cdef DTYPE_t_FILLNOFLAT filled_value, dtm_value, min_value, new_value
     cdef unsigned int up, down, left, right, row, col
 
     cdef int changes = 0
     row = fromrow
-    while row != torow:
+    while row != endrow:
         up = <unsigned int>(row - 1)
         down = <unsigned int>(row + 1)
         col = fromcol
-        while col != tocol:
+        while col != endcol:
             filled_value = filled[row,col]
             dtm_value = dtm[row, col]
             if filled_value > dtm_value:
-- 
2.43.0


From ad58e3df5f5f3328b75cd3d6d01a8f6e63350b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 02/14] fix: native flow directions must use the same diagonal
 slope as Python

Multiplying by 1/sqrt(2) rounds differently from dividing by sqrt(2), so
near ties were resolved differently with and without speedups.
---
 malstroem/algorithms/speedups/_flow.pyx | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/malstroem/algorithms/speedups/_flow.pyx b/malstroem/algorithms/speedups/_flow.pyx
index 8281447..b9c2321 100644
--- a/malstroem/algorithms/speedups/_flow.pyx
+++ b/malstroem/algorithms/speedups/_flow.pyx
@@ -91,7 +91,6 @@ AGNPS_UPLEFT_DELTA.r = -1
 AGNPS_UPLEFT_DELTA.c = -1
 
 cdef DTYPE_t_FILLNOFLAT SQRT2 = 2**0.5
-cdef DTYPE_t_FILLNOFLAT INV_SQRT2 = 1 / SQRT2
 
 # See http://sourceforge.net/p/saga-gis/code-0/HEAD/tree/tags/release-2-0-1/saga_2/src/modules_terrain_analysis/terrain_analysis/ta_channels/D8_Flow_Analysis.cpp#l166
 # and http://www.saga-gis.org/saga_api_doc/html/grid__operation_8cpp_source.html#l01060
@@ -137,7 +136,7 @@ def terrain_flow(DTYPE_t_FILLNOFLAT[:,:] terrain):
                 dzmax = dz
                 i = AGNPS_UP
             # UpRight
-            dz = (z - terrain[up, right]) * INV_SQRT2
+            dz = (z - terrain[up, right]) / SQRT2
             if dz > dzmax:
                 dzmax = dz
                 i = AGNPS_UPRIGHT
@@ -147,7 +146,7 @@ def terrain_flow(DTYPE_t_FILLNOFLAT[:,:] terrain):
                 dzmax = dz
                 i = AGNPS_RIGHT
             # DownRight
-            dz = (z - terrain[down, right]) * INV_SQRT2
+            dz = (z - terrain[down, right]) / SQRT2
             if dz > dzmax:
                 dzmax = dz
                 i = AGNPS_DOWNRIGHT
@@ -157,7 +156,7 @@ def terrain_flow(DTYPE_t_FILLNOFLAT[:,:] terrain):
                 dzmax = dz
                 i = AGNPS_DOWN
             # DownLeft
-            dz = (z - terrain[down, left]) * INV_SQRT2
+            dz = (z - terrain[down, left]) / SQRT2
             if dz > dzmax:
                 dzmax = dz
                 i = AGNPS_DOWNLEFT
@@ -167,7 +166,7 @@ def terrain_flow(DTYPE_t_FILLNOFLAT[:,:] terrain):
                 dzmax = dz
                 i = AGNPS_LEFT
             # UpLeft
-            dz = (z - terrain[up, left]) * INV_SQRT2
+            dz = (z - terrain[up, left]) / SQRT2
             if dz > dzmax:
                 dzmax = dz
                 i = AGNPS_UPLEFT
-- 
2.43.0


From 80ab0fd57809490d6045c3451e806605cc97db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 03/14] fix: accumulated flow must stop at cells without flow
 direction

Python raised a TypeError and the native version went on from an
undefined cell.
---
 malstroem/algorithms/flow.py            | 2 ++
 malstroem/algorithms/speedups/_flow.pyx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/malstroem/algorithms/flow.py b/malstroem/algorithms/flow.py
index 180788a..2c84c47 100644
--- a/malstroem/algorithms/flow.py
+++ b/malstroem/algorithms/flow.py
@@ -338,6 +338,8 @@ def trace_accumulated_flow(flowdir, accum, cell):
         accum[cell[0], cell[1]] = s + 1
         # Go to downstream cell
         direction = flowdir[cell[0], cell[1]]
+        if direction == FLOWDIR_NODIR:
+            break
         cell = cell_in_direction(cell, direction)
 
 
diff --git a/malstroem/algorithms/speedups/_flow.pyx b/malstroem/algorithms/speedups/_flow.pyx
index b9c2321..c606d83 100644
--- a/malstroem/algorithms/speedups/_flow.pyx
+++ b/malstroem/algorithms/speedups/_flow.pyx
@@ -243,6 +243,8 @@ cdef void trace_accumulated_flow_cython(DTYPE_t_FLOWDIR[:,:] flowdir, DTYPE_t_AC
         accum[cell.r, cell.c] = s + 1
         # Go to downstream cell
         downstream_direction = flowdir[cell.r, cell.c]
+        if downstream_direction == AGNPS_NODIR:
+            return
         cell = cell_in_direction_cython(cell, downstream_direction)
 
 
-- 
2.43.0


From bed14b9effb05133d899eb39b87ed0c2223ee9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 04/14] fix: native label_data must leave out the given
 background label

It always left out label 0 whatever the background label.
---
 malstroem/algorithms/speedups/_label.pyx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/malstroem/algorithms/speedups/_label.pyx b/malstroem/algorithms/speedups/_label.pyx
index 7936d49..1ce4a48 100644
--- a/malstroem/algorithms/speedups/_label.pyx
+++ b/malstroem/algorithms/speedups/_label.pyx
@@ -190,6 +190,8 @@ cdef label_data_float32_int32_cython(np.float32_t[:,:] data, np.int32_t[:,:] lab
     cdef np.float32_t val
     cdef np.int32_t lbl, background_lbl
 
+    background_lbl = background
+
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(FloatArray() for i in range(max_label + 1))
     
@@ -198,7 +200,7 @@ cdef label_data_float32_int32_cython(np.float32_t[:,:] data, np.int32_t[:,:] lab
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <FloatArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
@@ -212,6 +214,8 @@ cdef label_data_float64_int32_cython(np.float64_t[:,:] data, np.int32_t[:,:] lab
     cdef np.float64_t val
     cdef np.int32_t lbl, background_lbl
     
+    background_lbl = background
+
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(DoubleArray() for i in range(max_label + 1))
     
@@ -220,7 +224,7 @@ cdef label_data_float64_int32_cython(np.float64_t[:,:] data, np.int32_t[:,:] lab
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <DoubleArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
@@ -233,6 +237,8 @@ cdef label_data_fallback_cython(data, labels, max_label, background):
     cdef np.float64_t val
     cdef np.int64_t lbl, background_lbl
     
+    background_lbl = background
+
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(DoubleArray() for i in range(max_label + 1))
     
@@ -241,7 +247,7 @@ cdef label_data_fallback_cython(data, labels, max_label, background):
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <DoubleArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
-- 
2.43.0


From 9091d3f9413246c5b409c3308079ee452b7dff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 05/14] fix: bluespot processing without a filter function

The unfiltered labels and statistics were not carried on, so processing
ended with a NameError.
---
 malstroem/bluespots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malstroem/bluespots.py b/malstroem/bluespots.py
index aa861be..d45455f 100644
--- a/malstroem/bluespots.py
+++ b/malstroem/bluespots.py
@@ -160,7 +160,8 @@ class BluespotTool(object):
         raw_bluespot_stats = label.label_stats(depths, raw_labeled)
         if not self.input_bluespot_filter_function:
             self.logger.info("Final number of bluespots (No filter specified): {}".format(raw_nlabels))
-            self.output_labeled_raster.write(raw_labeled)
+            labeled, nlabels, bluespot_stats = raw_labeled, raw_nlabels, raw_bluespot_stats
+            self.output_labeled_raster.write(labeled)
         else:
             self.logger.info("Number of bluespots found before filtering: {}".format(raw_nlabels))
             self.logger.info("Calculating filtered bluespots")
-- 
2.43.0


From 6623435b7a983a28d47f22065d53d3888dea1c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 06/14] fix: histogram bins must cover negative elevations

Truncation towards zero placed the first bin above a negative minimum,
and the cells below it were not counted.
---
 malstroem/hyps.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/malstroem/hyps.py b/malstroem/hyps.py
index 352b666..72bc583 100644
--- a/malstroem/hyps.py
+++ b/malstroem/hyps.py
@@ -12,6 +12,7 @@
 # -------------------------------------------------------------------------------------------------
 import numpy as np
 import logging
+import math
 from collections import namedtuple
 
 from malstroem.algorithms import speedups
@@ -88,8 +89,11 @@ def cumulative_volume(h : Histogram, cell_area : float):
 
 def histogram_bins(zmin, zmax, resolution):
     scale = 1 / resolution
-    min_scaled = int(zmin * scale)
-    max_scaled = int(zmax * scale)
+    min_scaled = math.floor(zmin * scale)
+    if min_scaled * resolution > zmin:
+        # Rounding must not leave zmin below the first bin
+        min_scaled -= 1
+    max_scaled = math.floor(zmax * scale)
     num_bins = max_scaled - min_scaled + 1
     lower_bound = min_scaled * resolution
     upper_bound = lower_bound + num_bins * resolution
-- 
2.43.0


From cdf27ed858310743fe6766acefc9717df3942cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 07/14] fix: substitute nodata values also when nodata is 0

---
 malstroem/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 91b193b..bd43325 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -75,7 +75,7 @@ class RasterReader(object):
         ndarray
         """
         data = self._bnd.ReadAsArray()
-        if self.nodata and self.nodatasubst is not None:
+        if self.nodata is not None and self.nodatasubst is not None:
             mask = np.isnan(data) if np.isnan(self.nodata) else np.isclose(data, self.nodata)
             data[mask] = self.nodatasubst
         return data
-- 
2.43.0


From 5ad9066699af7832e38b881ace2d04c4377ba1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 08/14] fix: refuse integers no supported type can hold with
 the intended error

The intended NotImplementedError was hidden by an UnboundLocalError.
---
 malstroem/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/malstroem/io.py b/malstroem/io.py
index bd43325..4904914 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -132,6 +132,7 @@ class RasterWriter(object):
 
         """
         gdal_options = self.options.copy()
+        gdal_datatype = None
         if data.dtype == np.float64:
             gdal_datatype = gdal.GDT_Float64
         elif data.dtype == np.float32:
-- 
2.43.0


From 482a61643fd43f466515cd7607df2acb8af5e63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 09/14] fix: no water outside bluespots for terrain below -999

The level used for the background was above such terrain.
---
 malstroem/approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/approx.py b/malstroem/approx.py
index 98ff03b..f274fec 100644
--- a/malstroem/approx.py
+++ b/malstroem/approx.py
@@ -166,7 +166,7 @@ def approx_bluespots(bluespot_labels, bluespot_water_levels, dem, background_lab
 
 
 
-def _labelvaluedict_to_list(labelvaluedict, background=0, set_background_to=-999.0):
+def _labelvaluedict_to_list(labelvaluedict, background=0, set_background_to=float('-inf')):
     max_label = max([x for x in labelvaluedict.keys()])
     l = []
     for ix in range(max_label + 1):
-- 
2.43.0


From 864915032d8fd13e48f79d52342d86e5e94d131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 10/14] fix: initvolumes must accept a rain event of 0 mm

---
 malstroem/scripts/initvolume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/malstroem/scripts/initvolume.py b/malstroem/scripts/initvolume.py
index 99b2134..e909007 100644
--- a/malstroem/scripts/initvolume.py
+++ b/malstroem/scripts/initvolume.py
@@ -58,9 +58,9 @@ def process_volumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_lay
     For documentation of OGR features (format, dsco and lco) see http://www.gdal.org/ogr_formats.html
     """
     # Validate one and only one
-    if mm and pr:
+    if mm is not None and pr:
         raise click.UsageError("-mm and -pr are mutually exclusive")
-    if not mm and not pr:
+    if mm is None and not pr:
         raise click.UsageError("One of -mm and -pr must be specified")
 
     nodes_layer = nodes_layer
@@ -71,7 +71,7 @@ def process_volumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_lay
     nodes_reader = io.VectorReader(nodes, nodes_layer)
     volumes_writer = io.VectorWriter(format, out, out_layer, None, ogr.wkbPoint, nodes_reader.crs, dsco, lco) 
 
-    if mm:
+    if mm is not None:
         logger.info(f"Processing initial volumes using evenly distributed rain event of {mm}mm")
         rain_tool = raintool.SimpleVolumeTool(nodes_reader, volumes_writer, out_attribute, mm)
         rain_tool.process()
-- 
2.43.0


From a122144713c63357b22890e8609fb1057d14630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 11/14] fix: histogram bins must cover the maximum despite
 rounding

---
 malstroem/hyps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/malstroem/hyps.py b/malstroem/hyps.py
index 72bc583..6f36cdb 100644
--- a/malstroem/hyps.py
+++ b/malstroem/hyps.py
@@ -97,6 +97,10 @@ def histogram_bins(zmin, zmax, resolution):
     num_bins = max_scaled - min_scaled + 1
     lower_bound = min_scaled * resolution
     upper_bound = lower_bound + num_bins * resolution
+    if upper_bound < zmax:
+        # Rounding must not leave zmax above the last bin
+        num_bins += 1
+        upper_bound = lower_bound + num_bins * resolution
     bins = HistogramBinsInfo(num_bins, lower_bound, upper_bound, resolution)
     return bins
 
-- 
2.43.0


From f4f4745d4fc55dfc4a9d0e464fad940e2e33c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 12/14] fix: accept DEMs of any numeric type in the single
 commands

Only the all-in-one command converted the DEM to the working precision.
The native fill refused other types, elevations of the smallest 16 bit
integer overflowed when choosing minimum drops, and depths of a 64 bit
DEM included the rounding of the fill.
---
 malstroem/algorithms/fill.py | 5 ++++-
 malstroem/scripts/dem.py     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/malstroem/algorithms/fill.py b/malstroem/algorithms/fill.py
index 2002ce4..9088054 100644
--- a/malstroem/algorithms/fill.py
+++ b/malstroem/algorithms/fill.py
@@ -14,7 +14,7 @@
 from __future__ import (absolute_import, division, print_function) #, unicode_literals)
 from builtins import *
 import numpy as np
-from .dtypes import DTYPE_FILL, DTYPE_FILLNOFLAT
+from .dtypes import DTYPE_DTM, DTYPE_FILL, DTYPE_FILLNOFLAT
 
 
 def _fill_terrain(dtm, filled, fromrow, torow, fromcol, tocol):
@@ -131,6 +131,7 @@ def fill_terrain(dtm):
         Depressionless DEM
 
     """
+    dtm = np.asarray(dtm, dtype=DTYPE_DTM)
     filled = _initialize_filled(dtm, DTYPE_FILL)
 
     keep_going = True
@@ -192,6 +193,7 @@ def fill_terrain_no_flats(dtm, short=0, diag=0):
     -------
 
     """
+    dtm = np.asarray(dtm, dtype=DTYPE_DTM)
     filled = _initialize_filled(dtm, DTYPE_FILLNOFLAT)
 
     keep_going = True
@@ -243,6 +245,7 @@ def minimum_safe_short_and_diag(dem):
     -------
 
     """
+    dem = np.asarray(dem, dtype=DTYPE_DTM)
     maxval = DTYPE_FILLNOFLAT(max(abs(np.amax(dem)), abs(np.amin(dem))))
     nextval = np.nextafter(maxval, DTYPE_FILLNOFLAT(float('inf')))
     short = (nextval - maxval) * (1024 if DTYPE_FILLNOFLAT == np.float64 else 10)
diff --git a/malstroem/scripts/dem.py b/malstroem/scripts/dem.py
index c186b2e..bb2c7f1 100644
--- a/malstroem/scripts/dem.py
+++ b/malstroem/scripts/dem.py
@@ -19,6 +19,7 @@ import click_log
 
 from malstroem import io
 from malstroem.algorithms import fill, flow
+from malstroem.algorithms.dtypes import DTYPE_DTM
 
 NODATASUBST = -999
 
@@ -49,7 +50,9 @@ def process_depths(dem, filled, out):
     filled_reader = io.RasterReader(filled, nodatasubst=NODATASUBST)
     depths_writer = io.RasterWriter(out, dem_reader.transform, dem_reader.crs, NODATASUBST)
 
-    depths_data = filled_reader.read() - dem_reader.read()
+    # Same elevations as used for filling
+    dem_data = dem_reader.read().astype(DTYPE_DTM, copy=False)
+    depths_data = filled_reader.read() - dem_data
 
     depths_writer.write(depths_data)
 
-- 
2.43.0


From d5679b94b51b63d351baf8b6082e8267dc0dcdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:40 +0000
Subject: [PATCH 13/14] fix: close a vector writer that has written no features

CommitTransaction was called although the transaction is only started by the
first feature, so that vectorizing a terrain without bluespots failed.
---
 malstroem/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 4904914..013e00b 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -344,7 +344,9 @@ class VectorWriter(object):
             raise Exception('Error while writing to layer {}'.format(self.layername))
 
     def close(self):
-        self._lyr.CommitTransaction()
+        if self.fieldsinitialized:
+            # The transaction is started when the first feature is written
+            self._lyr.CommitTransaction()
         self._lyr = None
         self._ds = None
 
-- 
2.43.0


From cb884b20383a33a651fbd123843c8313adaa10d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 14/14] fix: pourpts reads the DEM with the same nodata
 substitute as the other commands

Cells without data took part with their stored nodata value, so that pour points
could differ from those of the complete command and from the flow directions.
---
 malstroem/scripts/bluespot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malstroem/scripts/bluespot.py b/malstroem/scripts/bluespot.py
index 861feae..aebc41f 100644
--- a/malstroem/scripts/bluespot.py
+++ b/malstroem/scripts/bluespot.py
@@ -28,6 +28,8 @@ from ._utils import parse_filter
 from malstroem.algorithms import label, flow, fill
 from osgeo import ogr
 
+NODATASUBST = -999
+
 @click.command('bspots')
 @click.option('-depths', required=True, type=click.Path(exists=True), help='Depths file')
 @click.option('-out', required=True, type=click.Path(exists=False), help='Output file (bluespots)')
@@ -115,7 +117,7 @@ def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, l
     data = accum if accum else dem
     if not data:
         raise Exception('Either accum or dem must be specified')
-    data_reader = io.RasterReader(data)
+    data_reader = io.RasterReader(data, nodatasubst=None if accum else NODATASUBST)
 
     format = str(format)
     layername = str(layername)
-- 
2.43.0

