From 1d487a50044e14c6e4c5de711a4303bbf78f0575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:11 +0000
Subject: [PATCH 01/27] fix: serialize calls to the non-reentrant CSPICE
 library

Concurrent threads computing footprints, limbs or projected rays corrupt the
CSPICE traceback stack, which raises spurious errors or aborts the process.
---
 src/tatc/utils.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 04f2202..481c9c0 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -4,8 +4,10 @@ Utility functions.
 
 @author: Paul T. Grogan <paul.grogan@asu.edu>
 """
+import functools
 import re
-from typing import List, Union
+import threading
+from typing import Callable, List, Union
 
 import numpy as np
 from numba import njit
@@ -32,6 +34,35 @@ from spiceypy.utils.exceptions import NotFoundError
 from . import constants
 from . import config
 
+# the CSPICE library is not reentrant; concurrent threads take turns
+_spice_lock = threading.Lock()
+
+
+def _serialize_spice(function: Callable) -> Callable:
+    """
+    Decorates a SPICE function to prevent concurrent calls by multiple threads.
+
+    Args:
+        function (Callable): The SPICE function.
+
+    Returns:
+        Callable: The serialized SPICE function.
+    """
+
+    @functools.wraps(function)
+    def wrapper(*args, **kwargs):
+        with _spice_lock:
+            return function(*args, **kwargs)
+
+    return wrapper
+
+
+edlimb = _serialize_spice(edlimb)
+inelpl = _serialize_spice(inelpl)
+nvp2pl = _serialize_spice(nvp2pl)
+recgeo = _serialize_spice(recgeo)
+surfpt = _serialize_spice(surfpt)
+
 
 @njit
 def mean_anomaly_to_true_anomaly(mean_anomaly: float, eccentricity: float = 0) -> float:
-- 
2.43.0


From 70d7357f4dc57b255ad5b65de193465f7e69d204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:04 +0000
Subject: [PATCH 02/27] fix: discard lazy-loaded orbit values when fields
 change

Assigning a field of an orbit, or copying an orbit with updated fields, kept
the previously computed two line elements, epochs and repeat cycle, so later
calls returned results for the old field values.
---
 src/tatc/schemas/orbit.py | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index f9f80c1..9890b3b 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -24,7 +24,34 @@ from .point import Point
 from .. import config, constants, utils
 
 
-class TwoLineElements(BaseModel):
+class LazyLoadModel(BaseModel):
+    """
+    Base class for models that lazy-load values computed from their fields.
+    """
+
+    def _clear_lazy_load(self) -> None:
+        """
+        Discards lazy-loaded values (all instance attributes other than fields).
+        """
+        for key in [k for k in self.__dict__ if k not in type(self).model_fields]:
+            self.__dict__.pop(key, None)
+
+    def __setattr__(self, name, value):
+        super().__setattr__(name, value)
+        # previously-computed values are stale if a field changes
+        self._clear_lazy_load()
+
+    def model_copy(self, *, update=None, deep=False):
+        """
+        Copies this model. Discards lazy-loaded values if any fields are updated.
+        """
+        copied = super().model_copy(update=update, deep=deep)
+        if update:
+            copied._clear_lazy_load()
+        return copied
+
+
+class TwoLineElements(LazyLoadModel):
     """
     Orbit defined with standard two line elements.
     """
@@ -699,7 +726,7 @@ class TwoLineElements(BaseModel):
         return self
 
 
-class OrbitBase(BaseModel):
+class OrbitBase(LazyLoadModel):
     """
     Base class for orbits.
     """
-- 
2.43.0


From ef2228e17112529915e23a195f99ba82a9240f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:35 +0000
Subject: [PATCH 03/27] fix: leave the caller's data frame unchanged in
 normalize_geometry

---
 src/tatc/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 481c9c0..d1ccea4 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -1214,6 +1214,8 @@ def normalize_geometry(
     elif isinstance(geometry, gpd.GeoSeries):
         geometry = gpd.GeoDataFrame(geometry=geometry, crs="EPSG:4326")
     if isinstance(geometry, gpd.GeoDataFrame):
+        # work on a copy to leave the caller's data frame unchanged
+        geometry = geometry.copy()
         geometry["geometry"] = geometry.apply(
             lambda r: split_polygon(r.geometry),
             axis=1,
-- 
2.43.0


From 26741d552741852f7614901960231f6987bad377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:27 +0000
Subject: [PATCH 04/27] fix: return no events for several element sets without
 observation events

---
 src/tatc/schemas/orbit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 9890b3b..35c7415 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -679,10 +679,11 @@ class TwoLineElements(LazyLoadModel):
                 )
                 for i in range(len(part_ts) - 1)
             ]
+            times_py = [t.utc_datetime() for e in events for t in e[0]]
+            if len(times_py) == 0:
+                return (Time([], []), np.array([], dtype=int))
             return (
-                constants.timescale.from_datetimes(
-                    [t.utc_datetime() for e in events for t in e[0]]
-                ),
+                constants.timescale.from_datetimes(times_py),
                 np.array([v for e in events for v in e[1]]),
             )
         # create skyfield Time
-- 
2.43.0


From 1f7cbaf6ecdf6572e5220570289c34ddde5d492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:22 +0000
Subject: [PATCH 05/27] fix: keep a duration column when no reduced or gridded
 value exists

---
 src/tatc/analysis/coverage.py | 8 ++------
 src/tatc/analysis/latency.py  | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index 856f86f..d5d8aa8 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -403,9 +403,7 @@ def reduce_observations(aggregated_observations: gpd.GeoDataFrame) -> gpd.GeoDat
     ).reset_index()
     # convert access and revisit from numeric values after aggregation
     gdf["access"] = gdf["access"].apply(lambda t: timedelta(seconds=t))
-    gdf["revisit"] = gdf["revisit"].apply(
-        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-    )
+    gdf["revisit"] = pd.to_timedelta(gdf["revisit"], unit="s")
     return gdf
 
 
@@ -447,7 +445,5 @@ def grid_observations(
     )
     # convert access and revisit from numeric values after aggregation
     gdf["access"] = gdf["access"].apply(lambda t: timedelta(seconds=t))
-    gdf["revisit"] = gdf["revisit"].apply(
-        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-    )
+    gdf["revisit"] = pd.to_timedelta(gdf["revisit"], unit="s")
     return gdf
diff --git a/src/tatc/analysis/latency.py b/src/tatc/analysis/latency.py
index 50528fa..43333f4 100644
--- a/src/tatc/analysis/latency.py
+++ b/src/tatc/analysis/latency.py
@@ -245,9 +245,7 @@ def reduce_latencies(latency_observations: gpd.GeoDataFrame) -> gpd.GeoDataFrame
         },
     ).reset_index()
     # convert latency from numeric values after aggregation
-    gdf["latency"] = gdf["latency"].apply(
-        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-    )
+    gdf["latency"] = pd.to_timedelta(gdf["latency"], unit="s")
     return gdf
 
 
@@ -285,7 +283,5 @@ def grid_latencies(
         .reset_index()
     )
     # convert latency from numeric values after aggregation
-    gdf["latency"] = gdf["latency"].apply(
-        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-    )
+    gdf["latency"] = pd.to_timedelta(gdf["latency"], unit="s")
     return gdf
-- 
2.43.0


From 2d709f81bbbafd08fcadd24c2832cefea4df1536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:10 +0000
Subject: [PATCH 06/27] fix: weigh gridded coverage and latency by the samples
 of the joined points

---
 src/tatc/analysis/coverage.py | 22 ++++++++++------------
 src/tatc/analysis/latency.py  | 20 +++++++++-----------
 2 files changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index d5d8aa8..874f455 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -431,18 +431,16 @@ def grid_observations(
     # convert access and revisit to numeric values before aggregation
     gdf["access"] = gdf["access"] / timedelta(seconds=1)
     gdf["revisit"] = gdf["revisit"] / timedelta(seconds=1)
-    gdf = (
-        cells.sjoin(gdf, how="inner", predicate="contains")
-        .dissolve(
-            by="cell_id",
-            aggfunc={
-                "samples": "sum",
-                "access": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-                "revisit": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-            },
-        )
-        .reset_index()
-    )
+    # join with unique row labels to look up the weight of each record
+    joined = cells.sjoin(gdf, how="inner", predicate="contains").reset_index(drop=True)
+    gdf = joined.dissolve(
+        by="cell_id",
+        aggfunc={
+            "samples": "sum",
+            "access": lambda r: np.average(r, weights=joined.loc[r.index, "samples"]),
+            "revisit": lambda r: np.average(r, weights=joined.loc[r.index, "samples"]),
+        },
+    ).reset_index()
     # convert access and revisit from numeric values after aggregation
     gdf["access"] = gdf["access"].apply(lambda t: timedelta(seconds=t))
     gdf["revisit"] = pd.to_timedelta(gdf["revisit"], unit="s")
diff --git a/src/tatc/analysis/latency.py b/src/tatc/analysis/latency.py
index 43333f4..c8c62d2 100644
--- a/src/tatc/analysis/latency.py
+++ b/src/tatc/analysis/latency.py
@@ -271,17 +271,15 @@ def grid_latencies(
     gdf = reduced_latencies.copy()
     # convert latency to numeric values before aggregation
     gdf["latency"] = gdf["latency"] / timedelta(seconds=1)
-    gdf = (
-        cells.sjoin(gdf, how="inner", predicate="contains")
-        .dissolve(
-            by="cell_id",
-            aggfunc={
-                "samples": "sum",
-                "latency": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-            },
-        )
-        .reset_index()
-    )
+    # join with unique row labels to look up the weight of each record
+    joined = cells.sjoin(gdf, how="inner", predicate="contains").reset_index(drop=True)
+    gdf = joined.dissolve(
+        by="cell_id",
+        aggfunc={
+            "samples": "sum",
+            "latency": lambda r: np.average(r, weights=joined.loc[r.index, "samples"]),
+        },
+    ).reset_index()
     # convert latency from numeric values after aggregation
     gdf["latency"] = pd.to_timedelta(gdf["latency"], unit="s")
     return gdf
-- 
2.43.0


From ddb14c342d64a7a7d13de9bcfa31f3df46cc9f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:44 +0000
Subject: [PATCH 07/27] fix: pair observations and downlinks whose times differ
 in resolution

---
 src/tatc/analysis/latency.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tatc/analysis/latency.py b/src/tatc/analysis/latency.py
index c8c62d2..bfaabb3 100644
--- a/src/tatc/analysis/latency.py
+++ b/src/tatc/analysis/latency.py
@@ -137,9 +137,10 @@ def compute_latencies(
         return _get_empty_latency_frame()
 
     # merge observations with downlinks to find matching satellite downlinks
+    # (times gathered from empty and non-empty frames may differ in resolution)
     obs = pd.merge_asof(
-        observations.sort_values(by="end"),
-        downlinks.sort_values(by="start"),
+        observations.astype({"end": "datetime64[ns, UTC]"}).sort_values(by="end"),
+        downlinks.astype({"start": "datetime64[ns, UTC]"}).sort_values(by="start"),
         by="satellite",
         left_on="end",
         right_on="start",
-- 
2.43.0


From aa1455a953ed7560350d4ef709644e796a581976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:50 +0000
Subject: [PATCH 08/27] fix: use the closest element set after each epoch
 midpoint

---
 src/tatc/schemas/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 35c7415..dcd3fb1 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -493,7 +493,7 @@ class TwoLineElements(LazyLoadModel):
             [start] + list(epoch_midpoints[midpoint_indices]) + [end],
             (
                 [self.get_closest_tle_index(start)]
-                + list(map(int, tle_i[midpoint_indices]))
+                + [int(tle_i[i + 1]) for i in midpoint_indices]
                 + [self.get_closest_tle_index(end)]
             ),
         )
-- 
2.43.0


From 7aeded2a4ec8ad83515eaec0b09308bba104d3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:11 +0000
Subject: [PATCH 09/27] fix: report visibility intervals without events and of
 any length

---
 src/tatc/analysis/coverage.py | 104 +++++++++++-----------------------
 1 file changed, 34 insertions(+), 70 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index 874f455..dc9b81d 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -20,7 +20,6 @@ from ..schemas.satellite import Satellite
 
 from ..utils import (
     compute_min_elevation_angle,
-    compute_max_access_time,
     compute_footprint,
 )
 from ..constants import de421, timescale
@@ -46,82 +45,47 @@ def _get_visible_interval_series(
     Returns:
         pandas.Series: Series of observation intervals.
     """
-    # define starting and ending points
-    t_0 = timescale.from_datetime(start)
-    # build skyfield objects
-    sat = satellite.orbit.to_tle().as_skyfield()
-    # compute the initial satellite altitude
-    satellite_altitude = wgs84.geographic_position_of(sat.at(t_0)).elevation.m
-    # compute the maximum access time to filter bad data
-    max_access_time = timedelta(
-        seconds=compute_max_access_time(satellite_altitude, min_elevation_angle)
-    )
     # find the set of observation events
     times, events = satellite.orbit.to_tle().get_observation_events(
         point, start, end, min_elevation_angle
     )
+    period_start = pd.Timestamp(start.astimezone(tz=timezone.utc))
+    period_end = pd.Timestamp(end.astimezone(tz=timezone.utc))
+    # extract the rise (0) and set (2) events
+    transitions = [
+        (pd.Timestamp(times[i].utc_datetime()), event)
+        for i, event in enumerate(events)
+        if event != 1
+    ]
+    # determine if the satellite is visible at the start
+    if len(transitions) > 0:
+        # visible if the first event is a set
+        is_visible = transitions[0][1] == 2
+    elif len(events) > 0:
+        # visible throughout if all events are type 1 (culminate)
+        is_visible = True
+    else:
+        # no events: either always or never visible
+        middle = start + (end - start) / 2
+        topos = wgs84.latlon(point.latitude, point.longitude, point.elevation)
+        is_visible = (
+            satellite.orbit.to_tle().get_orbit_track(middle)
+            - topos.at(timescale.from_datetime(middle))
+        ).altaz()[0].degrees >= min_elevation_angle
 
     # build the observation periods
     obs_periods = []
-    if len(events) > 0 and np.all(events == 1):
-        # if all events are type 1 (culminate), create a period from start to end
-        obs_periods += [
-            pd.Interval(
-                left=pd.Timestamp(start.astimezone(tz=timezone.utc)),
-                right=pd.Timestamp(end.astimezone(tz=timezone.utc)),
-            )
-        ]
-    elif len(events) > 0:
-        # otherwise, match rise/set events
-        rises = times[events == 0]
-        sets = times[events == 2]
-        if (
-            len(sets) > 0
-            and (len(rises) == 0 or sets[0].utc_datetime() < rises[0].utc_datetime())
-            and start < sets[0].utc_datetime()
-        ):
-            # if first event is a set, create a period from the start
-            obs_periods += [
-                pd.Interval(
-                    left=pd.Timestamp(start.astimezone(tz=timezone.utc)),
-                    right=pd.Timestamp(sets[0].utc_datetime()),
-                )
-            ]
-        # create an observation period to match with each rise event if
-        # there is a following set event within twice the maximum access time
-        obs_periods += [
-            pd.Interval(
-                left=pd.Timestamp(rise.utc_datetime()),
-                right=pd.Timestamp(
-                    sets[
-                        np.logical_and(
-                            rise.utc_datetime() < sets.utc_datetime(),
-                            sets.utc_datetime()
-                            < rise.utc_datetime() + 2 * max_access_time,
-                        )
-                    ][0].utc_datetime()
-                ),
-            )
-            for rise in rises
-            if np.any(
-                np.logical_and(
-                    rise.utc_datetime() < sets.utc_datetime(),
-                    sets.utc_datetime() < rise.utc_datetime() + 2 * max_access_time,
-                )
-            )
-        ]
-        if (
-            len(rises) > 0
-            and (len(sets) == 0 or rises[-1].utc_datetime() > sets[-1].utc_datetime())
-            and rises[-1].utc_datetime() < end
-        ):
-            # if last event is a rise, create a period to the end
-            obs_periods += [
-                pd.Interval(
-                    left=pd.Timestamp(rises[-1].utc_datetime()),
-                    right=pd.Timestamp(end.astimezone(tz=timezone.utc)),
-                )
-            ]
+    left = period_start if is_visible else None
+    for time, event in transitions:
+        if event == 0:
+            left = time
+        elif left is not None:
+            if left < time:
+                obs_periods += [pd.Interval(left=left, right=time)]
+            left = None
+    if left is not None and left < period_end:
+        # if still visible, create a period to the end
+        obs_periods += [pd.Interval(left=left, right=period_end)]
     return pd.Series(obs_periods, dtype="interval")
 
 
-- 
2.43.0


From bcbb25f0a7263a976b279d80b3d801a7e66eaaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:11 +0000
Subject: [PATCH 10/27] fix: start or end a pass where the element set in use
 changes visibility

---
 src/tatc/schemas/orbit.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index dcd3fb1..7c5ede9 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -679,12 +679,27 @@ class TwoLineElements(LazyLoadModel):
                 )
                 for i in range(len(part_ts) - 1)
             ]
-            times_py = [t.utc_datetime() for e in events for t in e[0]]
+            times_py = []
+            events_py = []
+            for i, e in enumerate(events):
+                if i > 0:
+                    # add a rise or set event if visibility changes between TLEs
+                    t = constants.timescale.from_datetime(part_ts[i])
+                    was_visible, is_visible = (
+                        (self.as_skyfield(tle_i) - topos).at(t).altaz()[0].degrees
+                        >= min_elevation_angle
+                        for tle_i in (tle_is[i - 1], tle_is[i])
+                    )
+                    if was_visible != is_visible:
+                        times_py += [part_ts[i]]
+                        events_py += [0 if is_visible else 2]
+                times_py += [t.utc_datetime() for t in e[0]]
+                events_py += list(e[1])
             if len(times_py) == 0:
                 return (Time([], []), np.array([], dtype=int))
             return (
                 constants.timescale.from_datetimes(times_py),
-                np.array([v for e in events for v in e[1]]),
+                np.array(events_py),
             )
         # create skyfield Time
         t_0 = constants.timescale.from_datetime(start)
-- 
2.43.0


From 88fa13366dccd0512f898aad19c179c560054dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:15 +0000
Subject: [PATCH 11/27] fix: skip partitions of element sets too short to
 search

---
 src/tatc/schemas/orbit.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 7c5ede9..bb9ed35 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -670,12 +670,15 @@ class TwoLineElements(LazyLoadModel):
         if self.get_tle_count() > 1:
             # try to use use multiple TLEs
             part_ts, tle_is = self.partition_by_tle_index(start, end)
+            sky_ts = [constants.timescale.from_datetime(t) for t in part_ts]
             events = [
-                self.as_skyfield(tle_is[i]).find_events(
-                    topos,
-                    constants.timescale.from_datetime(part_ts[i]),
-                    constants.timescale.from_datetime(part_ts[i + 1]),
-                    min_elevation_angle,
+                (
+                    self.as_skyfield(tle_is[i]).find_events(
+                        topos, sky_ts[i], sky_ts[i + 1], min_elevation_angle
+                    )
+                    # skip partitions shorter than the Skyfield Time resolution
+                    if sky_ts[i].tt < sky_ts[i + 1].tt
+                    else ([], [])
                 )
                 for i in range(len(part_ts) - 1)
             ]
-- 
2.43.0


From 14b71138f8688dd99ca5dea46bbd6d426c469b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:44 +0000
Subject: [PATCH 12/27] fix: repeat orbit tracks in the Earth-fixed frame

---
 src/tatc/schemas/orbit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index bb9ed35..a81b507 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -636,8 +636,9 @@ class TwoLineElements(LazyLoadModel):
                         * np.mod(np.abs(offset), repeat_cycle)
                     )
                 repeat_track = self.as_skyfield().at(repeat_times)
-                return Geocentric(
-                    repeat_track.position.au, repeat_track.velocity.au_per_d, ts_times
+                # repeat the position/velocity in the Earth-centered Earth-fixed frame
+                return Geocentric.from_time_and_frame_vectors(
+                    ts_times, itrs, *repeat_track.frame_xyz_and_velocity(itrs)
                 )
         # compute satellite positions
         return self.as_skyfield().at(ts_times)
-- 
2.43.0


From a7f72d82569a709d692f11dbe7b3c899f2e5f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:50 +0000
Subject: [PATCH 13/27] fix: report every unreadable or malformed configuration
 file as ConfigError

---
 src/tatc/config.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tatc/config.py b/src/tatc/config.py
index 86aeaee..5d2c448 100644
--- a/src/tatc/config.py
+++ b/src/tatc/config.py
@@ -9,7 +9,6 @@ import os
 import pathlib
 
 import yaml
-from yaml.parser import ParserError
 from pydantic import BaseModel, Field, ValidationError
 
 
@@ -72,11 +71,14 @@ def load_yaml_config(path: pathlib.Path):
     """
     if not os.path.exists(path):
         raise ConfigError("Couldn't load config file (not found)")
-    with open(path, "r", encoding="utf-8") as f:
-        try:
+    try:
+        with open(path, "r", encoding="utf-8") as f:
             config = yaml.safe_load(f)
-        except ParserError as err:
-            raise ConfigError(f"Couldn't parse config file - {err}") from err
+    except Exception as err:  # pylint: disable=W0718
+        # covers unreadable, undecodable, and malformed files
+        raise ConfigError(f"Couldn't parse config file - {err}") from err
+    if not isinstance(config, dict) or not all(isinstance(k, str) for k in config):
+        raise ConfigError("Couldn't validate config file - not a mapping of settings")
     try:
         return RuntimeConfiguration(**config)
     except ValidationError as err:
-- 
2.43.0


From 564e1464ffd82fee94e9ad20c309997fa1603f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:13 +0000
Subject: [PATCH 14/27] fix: keep the fields of pointed instruments when saving
 and restoring satellites

---
 src/tatc/schemas/satellite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/satellite.py b/src/tatc/schemas/satellite.py
index 66e8146..8fc0e94 100644
--- a/src/tatc/schemas/satellite.py
+++ b/src/tatc/schemas/satellite.py
@@ -22,7 +22,7 @@ from tatc.utils import (
     compute_min_elevation_angle,
 )
 from ..constants import EARTH_MEAN_RADIUS
-from .instrument import Instrument
+from .instrument import Instrument, PointedInstrument
 from .orbit import TwoLineElements, CircularOrbit, SunSynchronousOrbit, KeplerianOrbit
 
 
@@ -39,7 +39,7 @@ class SpaceSystem(BaseModel):
     orbit: Union[
         TwoLineElements, CircularOrbit, SunSynchronousOrbit, KeplerianOrbit
     ] = Field(..., description="Orbit specification.")
-    instruments: List[Instrument] = Field(
+    instruments: List[Union[PointedInstrument, Instrument]] = Field(
         [Instrument()], min_length=1, description="List of assigned instruments."
     )
 
-- 
2.43.0


From 93dd930f0bab75ef7a3c083fa96657deedb785b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:31 +0000
Subject: [PATCH 15/27] fix: compare orbits of several element sets after use

---
 src/tatc/schemas/orbit.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index a81b507..4e30dd5 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -434,9 +434,7 @@ class TwoLineElements(LazyLoadModel):
         tle_epochs = self.__dict__.get("tle_epochs")
         if tle_epochs is None:
             # extract the orbit epoch time
-            tle_epochs = np.array(
-                [self.get_epoch(i) for i in range(self.get_tle_count())]
-            )
+            tle_epochs = [self.get_epoch(i) for i in range(self.get_tle_count())]
             self.__dict__["tle_epochs"] = tle_epochs
         # handle scalar
         if isinstance(at_times, datetime):
-- 
2.43.0


From 56ac7bdea27336f75ba2705d5e88426b6d66056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:23 +0000
Subject: [PATCH 16/27] fix: restore architectures with streets of coverage
 constellations

---
 src/tatc/schemas/architecture.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tatc/schemas/architecture.py b/src/tatc/schemas/architecture.py
index e82f4ab..e22a543 100644
--- a/src/tatc/schemas/architecture.py
+++ b/src/tatc/schemas/architecture.py
@@ -14,6 +14,7 @@ from .satellite import (
     TrainConstellation,
     WalkerConstellation,
     MOGConstellation,
+    SOCConstellation,
 )
 from .point import GroundStation
 
@@ -25,7 +26,13 @@ class Architecture(BaseModel):
 
     name: str = Field(..., description="Name of this mission.")
     satellites: List[
-        Union[Satellite, TrainConstellation, WalkerConstellation, MOGConstellation]
+        Union[
+            Satellite,
+            TrainConstellation,
+            WalkerConstellation,
+            MOGConstellation,
+            SOCConstellation,
+        ]
     ] = Field([], description="List of member space systems.")
     stations: List[GroundStation] = Field(
         [], description="List of member ground stations."
-- 
2.43.0


From 84f96476d7f61e415f495dc4e94c1f92e2d2f0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:18 +0000
Subject: [PATCH 17/27] fix: measure elapsed time in UTC when the local offset
 changes in a window

---
 src/tatc/analysis/coverage.py | 3 ++-
 src/tatc/schemas/orbit.py     | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index dc9b81d..035ccb3 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -66,7 +66,8 @@ def _get_visible_interval_series(
         is_visible = True
     else:
         # no events: either always or never visible
-        middle = start + (end - start) / 2
+        start_utc, end_utc = (t.astimezone(tz=timezone.utc) for t in (start, end))
+        middle = start_utc + (end_utc - start_utc) / 2
         topos = wgs84.latlon(point.latitude, point.longitude, point.elevation)
         is_visible = (
             satellite.orbit.to_tle().get_orbit_track(middle)
diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 4e30dd5..292ed2b 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -705,9 +705,13 @@ class TwoLineElements(LazyLoadModel):
             )
         # create skyfield Time
         t_0 = constants.timescale.from_datetime(start)
+        t_1 = constants.timescale.from_datetime(end)
         if try_repeat:
             # try to compute repeat cycle events
             repeat_cycle = self.get_repeat_cycle()
+            # measure elapsed time in UTC (also if the local UTC offset changes)
+            start = start.astimezone(timezone.utc)
+            end = end.astimezone(timezone.utc)
             if repeat_cycle is not None and repeat_cycle < end - start:
                 repeat_t_1 = constants.timescale.from_datetime(start + repeat_cycle)
                 times, events = self.as_skyfield().find_events(
@@ -730,7 +734,6 @@ class TwoLineElements(LazyLoadModel):
                     events_py[times_py <= end],
                 )
         # compute observation events
-        t_1 = constants.timescale.from_datetime(end)
         # pylint: disable=E1101
         return self.as_skyfield().find_events(topos, t_0, t_1, min_elevation_angle)
 
-- 
2.43.0


From cc3b9cad7303c7ad1df291d0e5e4c550bbede1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:43 +0000
Subject: [PATCH 18/27] fix: compute the footprint of a list with a single time

---
 src/tatc/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index d1ccea4..8eae07e 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -641,7 +641,13 @@ def compute_footprint(
     return project_polygon_to_elevation(
         split_polygon(
             Polygon(
-                [(point.longitude.degrees, point.latitude.degrees) for point in points]
+                [
+                    (
+                        np.squeeze(point.longitude.degrees),
+                        np.squeeze(point.latitude.degrees),
+                    )
+                    for point in points
+                ]
             )
         ),
         elevation,
-- 
2.43.0


From f56901e007d48e291c72783baa02e94d859b11b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:23 +0000
Subject: [PATCH 19/27] fix: cull masked ground tracks and pixels only where
 the mask is out of view

---
 src/tatc/analysis/track.py | 154 ++++++++++++++++---------------------
 1 file changed, 66 insertions(+), 88 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 3ff3274..206f91e 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -6,7 +6,7 @@ Methods to generate coverage statistics.
 """
 
 from typing import List, Union, Optional
-from datetime import datetime, timedelta
+from datetime import datetime
 from enum import Enum
 
 import pandas as pd
@@ -15,12 +15,14 @@ import geopandas as gpd
 from skyfield.api import wgs84
 from skyfield.framelib import itrs
 from skyfield.functions import angle_between
+from skyfield.positionlib import Geocentric
 
 from shapely.geometry import (
     Polygon,
     MultiPolygon,
     Point,
     LineString,
+    box,
 )
 from shapely.ops import clip_by_rect, split
 import pyproj
@@ -29,7 +31,6 @@ from ..schemas.instrument import PointedInstrument
 from ..schemas.satellite import Satellite
 from ..utils import (
     buffer_footprint,
-    buffer_target,
     field_of_regard_to_swath_width,
 )
 from ..constants import de421, EARTH_MEAN_RADIUS, timescale
@@ -284,6 +285,61 @@ def _get_utm_epsg_code(point: Point, swath_width: float) -> str:
     )
 
 
+def _may_view_mask(
+    orbit_track: Geocentric,
+    mask: Union[
+        Polygon,
+        MultiPolygon,
+        gpd.GeoDataFrame,
+        gpd.GeoSeries,
+    ],
+) -> List[bool]:
+    """
+    Determines which orbit track positions may view a mask, i.e., those for which
+    the mask intersects the range of latitudes and longitudes above the horizon.
+
+    Args:
+        orbit_track (skyfield.positionlib.Geocentric): The satellite positions.
+        mask (Polygon, MultiPolygon, geopandas.GeoDataFrame, geopandas.GeoSeries):
+                The mask to view.
+
+    Returns:
+        typing.List[bool]: Indicators: `False` if the mask is certainly not in view.
+    """
+    if isinstance(mask, (gpd.GeoDataFrame, gpd.GeoSeries)):
+        mask = mask.union_all()
+    ssp = wgs84.geographic_position_of(orbit_track)
+    may_view = []
+    for lon, lat, alt in zip(
+        ssp.longitude.degrees, ssp.latitude.degrees, ssp.elevation.m
+    ):
+        # angular distance to the horizon, plus a margin for the ellipsoidal Earth
+        horizon = 2 + np.degrees(
+            np.arccos(EARTH_MEAN_RADIUS / (EARTH_MEAN_RADIUS + max(alt, 0)))
+        )
+        # range of longitudes above the horizon (all if a pole is above the horizon)
+        if abs(lat) + horizon < 90:
+            delta_lon = np.degrees(
+                np.arcsin(np.sin(np.radians(horizon)) / np.cos(np.radians(lat)))
+            )
+        else:
+            delta_lon = 180
+        may_view.append(
+            any(
+                mask.intersects(
+                    box(
+                        lon + wrap - delta_lon,
+                        max(lat - horizon, -90),
+                        lon + wrap + delta_lon,
+                        min(lat + horizon, 90),
+                    )
+                )
+                for wrap in (-360, 0, 360)
+            )
+        )
+    return may_view
+
+
 def collect_ground_track(
     satellite: Satellite,
     times: List[datetime],
@@ -332,50 +388,11 @@ def collect_ground_track(
     # select the observing instrument
     instrument = satellite.instruments[instrument_index]
     if mask is not None and len(times) > 1:
-        ssp = wgs84.geographic_position_of(orbit_track)
-        buffered_mask = buffer_target(
-            geometry=(
-                mask
-                if isinstance(mask, (Polygon, MultiPolygon))
-                else (
-                    mask.dissolve().iloc[0].geometry
-                    if isinstance(mask, gpd.GeoDataFrame)
-                    else mask.iloc[0]
-                )
-            ),
-            altitude=satellite.orbit.to_tle().get_altitude(),
-            inclination=satellite.orbit.to_tle().get_inclination(),
-            field_of_regard=instrument.field_of_regard,
-            time_step=np.diff(times).mean() / timedelta(seconds=1),
-        )
-        # cull orbit track with buffered mask
-        buffered_mask_contains_ssp = [
-            (
-                any(buffered_mask.contains(Point(longitude, latitude)))
-                if isinstance(buffered_mask, (gpd.GeoDataFrame, gpd.GeoSeries))
-                else buffered_mask.contains(Point(longitude, latitude))
-            )
-            for (longitude, latitude) in zip(
-                ssp.longitude.degrees, ssp.latitude.degrees
-            )
-        ]
-        if not any(buffered_mask_contains_ssp):
-            return _get_empty_ground_track()
-        orbit_track = orbit_track[buffered_mask_contains_ssp]
-        # compute footprint for culling
-        footprint = instrument.compute_footprint(orbit_track, elevation=elevation)
-        # cull orbit track to observable footprint
-        mask_intersects_footprint = [
-            (
-                any(mask.intersects(f))
-                if isinstance(mask, (gpd.GeoDataFrame, gpd.GeoSeries))
-                else mask.intersects(f)
-            )
-            for f in (footprint if isinstance(footprint, list) else [footprint])
-        ]
-        if not any(mask_intersects_footprint):
+        # cull orbit track to positions that may view the mask
+        may_view_mask = _may_view_mask(orbit_track, mask)
+        if not any(may_view_mask):
             return _get_empty_ground_track()
-        orbit_track = orbit_track[mask_intersects_footprint]
+        orbit_track = orbit_track[may_view_mask]
     # compute targets
     target = instrument.compute_footprint_center(orbit_track, elevation)
     # determine observation validity
@@ -653,50 +670,11 @@ def collect_ground_pixels(
             "Ground pixels are only compatible with rectangular PointedInstrument instances"
         )
     if mask is not None and len(times) > 1:
-        ssp = wgs84.geographic_position_of(orbit_track)
-        buffered_mask = buffer_target(
-            geometry=(
-                mask
-                if isinstance(mask, (Polygon, MultiPolygon))
-                else (
-                    mask.dissolve().iloc[0].geometry
-                    if isinstance(mask, gpd.GeoDataFrame)
-                    else mask.iloc[0]
-                )
-            ),
-            altitude=satellite.orbit.to_tle().get_altitude(),
-            inclination=satellite.orbit.to_tle().get_inclination(),
-            field_of_regard=instrument.field_of_regard,
-            time_step=np.diff(times).mean() / timedelta(seconds=1),
-        )
-        # cull orbit track with buffered mask
-        buffered_mask_contains_ssp = [
-            (
-                any(buffered_mask.contains(Point(longitude, latitude)))
-                if isinstance(buffered_mask, (gpd.GeoDataFrame, gpd.GeoSeries))
-                else buffered_mask.contains(Point(longitude, latitude))
-            )
-            for (longitude, latitude) in zip(
-                ssp.longitude.degrees, ssp.latitude.degrees
-            )
-        ]
-        if not any(buffered_mask_contains_ssp):
-            return _get_empty_ground_track()
-        orbit_track = orbit_track[buffered_mask_contains_ssp]
-        # compute footprint for culling
-        footprint = instrument.compute_footprint(orbit_track, elevation=elevation)
-        # cull orbit track to observable footprint
-        mask_intersects_footprint = [
-            (
-                any(mask.intersects(f))
-                if isinstance(mask, (gpd.GeoDataFrame, gpd.GeoSeries))
-                else mask.intersects(f)
-            )
-            for f in (footprint if isinstance(footprint, list) else [footprint])
-        ]
-        if not any(mask_intersects_footprint):
+        # cull orbit track to positions that may view the mask
+        may_view_mask = _may_view_mask(orbit_track, mask)
+        if not any(may_view_mask):
             return _get_empty_ground_track()
-        orbit_track = orbit_track[mask_intersects_footprint]
+        orbit_track = orbit_track[may_view_mask]
     # compute the footprint pixel array
     geometries = instrument.compute_footprint_pixel_array(
         orbit_track,
-- 
2.43.0


From ad6561cace25da1ebcd34b0bcb08c07b5f9215a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:29 +0000
Subject: [PATCH 20/27] fix: keep masked orbit track points in Earth-fixed and
 inertial coordinates

---
 src/tatc/analysis/track.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 206f91e..63e8482 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -232,8 +232,6 @@ def collect_orbit_track(
         sun = de421["earth"].at(orbit_track.t).observe(de421["sun"]).position.m
         beta = np.pi / 2 - angle_between(plane_normal, sun)
         track["solar_beta"] = np.degrees(beta)
-    if mask is not None:
-        track = gpd.clip(track, mask).reset_index(drop=True)
     return track
 
 
-- 
2.43.0


From 7e4e7fa373b6d1e6fc5a289cb3e2feb2d5a9eaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:36 +0000
Subject: [PATCH 21/27] fix: give every point and cell of an equally spaced
 grid its own id

---
 src/tatc/generation/points.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tatc/generation/points.py b/src/tatc/generation/points.py
index 8151d85..734b08a 100644
--- a/src/tatc/generation/points.py
+++ b/src/tatc/generation/points.py
@@ -194,7 +194,9 @@ def _compute_equally_spaced_point_id(
     Returns:
         int: The id of this point.
     """
-    return int(j * int(360 / theta_j) + np.mod(i, int(360 / theta_i)))
+    # number of columns around the globe, rounded as in the generation of indices
+    columns = int(np.round(360 / theta_i))
+    return int(j * columns + np.mod(i, columns))
 
 
 def _get_bounds(mask: Union[Polygon, MultiPolygon]) -> tuple:
-- 
2.43.0


From 53be4bc512e782a830c0f5f7efe59c813dcfcd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:46 +0000
Subject: [PATCH 22/27] fix: keep western points of Fibonacci lattice masks
 that pass the anti-meridian

---
 src/tatc/generation/points.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tatc/generation/points.py b/src/tatc/generation/points.py
index 734b08a..afb677d 100644
--- a/src/tatc/generation/points.py
+++ b/src/tatc/generation/points.py
@@ -111,7 +111,8 @@ def generate_fibonacci_lattice_points(
                 <= (
                     _compute_fibonacci_lattice_point_longitude(i) + 360
                     if max_longitude > 180
-                    and _compute_fibonacci_lattice_point_longitude(i) < 0
+                    and _compute_fibonacci_lattice_point_longitude(i)
+                    < min_longitude
                     else _compute_fibonacci_lattice_point_longitude(i)
                 )
                 <= max_longitude
@@ -127,7 +128,8 @@ def generate_fibonacci_lattice_points(
                         _compute_fibonacci_lattice_point_longitude(i) + 360
                         if mask is not None
                         and max_longitude > 180
-                        and _compute_fibonacci_lattice_point_longitude(i) < 0
+                        and _compute_fibonacci_lattice_point_longitude(i)
+                        < min_longitude
                         else _compute_fibonacci_lattice_point_longitude(i)
                     ),
                     _compute_fibonacci_lattice_point_latitude(i, samples),
-- 
2.43.0


From 0f2e3e809994876f2ee27022722cf11f566aa54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:51 +0000
Subject: [PATCH 23/27] fix: compute dilution of precision with the closest
 element set

---
 src/tatc/analysis/dop.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index fab7deb..ec73b80 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -13,7 +13,7 @@ from typing import List
 import pandas as pd
 import numpy as np
 import geopandas as gpd
-from skyfield.api import wgs84, EarthSatellite
+from skyfield.api import wgs84
 
 from ..constants import timescale
 from ..schemas import Point, Satellite
@@ -54,16 +54,6 @@ def compute_dop(
     - geopandas.GeoDataFrame: the dop for the given user location and satellite.
 
     """
-    # construct skyfield satellites for each satellite
-    sk_sats = [
-        EarthSatellite(
-            satellite.orbit.to_tle().tle[0],
-            satellite.orbit.to_tle().tle[1],
-            satellite.name,
-        )
-        for satellite in satellites
-    ]
-
     # construct skyfield times for each datetime
     sk_times = timescale.from_datetimes(times)
 
@@ -71,7 +61,13 @@ def compute_dop(
     sk_position = wgs84.latlon(point.latitude, point.longitude)
 
     # compute elevation/azimuth angles and range
-    altazs = [(sk_sat - sk_position).at(sk_times).altaz() for sk_sat in sk_sats]
+    altazs = [
+        (
+            satellite.orbit.to_tle().get_orbit_track(times, try_repeat=False)
+            - sk_position.at(sk_times)
+        ).altaz()
+        for satellite in satellites
+    ]
     el = np.array(list(map(lambda i: i[0].radians, altazs)))
     az = np.array(list(map(lambda i: i[1].radians, altazs)))
     r = np.array(list(map(lambda i: i[2].m, altazs)))
-- 
2.43.0


From a266c14f9d00408e0c7810b7a1819de3598c291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:51 +0000
Subject: [PATCH 24/27] fix: compute the azimuth of occultation transmitters
 with the closest element set

---
 src/tatc/analysis/ro_coverage.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tatc/analysis/ro_coverage.py b/src/tatc/analysis/ro_coverage.py
index f68639b..16e29ac 100644
--- a/src/tatc/analysis/ro_coverage.py
+++ b/src/tatc/analysis/ro_coverage.py
@@ -152,8 +152,7 @@ def _collect_ro_series(
 
             # azimuth of transmitter from geodetic tangent point (clockwise from North)
             tp_tx_azmimuth = (
-                (transmitter.orbit.to_tle().as_skyfield() - tpp_geo)
-                .at(timescale.from_datetime(times[j]))
+                (tx_pv[j] - tpp_geo.at(timescale.from_datetime(times[j])))
                 .altaz()[1]
                 .degrees
             )
-- 
2.43.0


From 740e1a3843b509acc06c24c5a7a80e0056f93d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:26 +0000
Subject: [PATCH 25/27] fix: notice element sets added to or replaced in the
 list of an orbit

---
 src/tatc/schemas/orbit.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 292ed2b..20c7958 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -430,12 +430,13 @@ class TwoLineElements(LazyLoadModel):
 
         if at_times is None:
             return 0
-        # lazy-load epochs
-        tle_epochs = self.__dict__.get("tle_epochs")
-        if tle_epochs is None:
+        # lazy-load epochs (unless the list of TLEs changed in place)
+        tle, tle_epochs = self.__dict__.get("tle_epochs", (None, None))
+        if tle != self.tle:
+            tle = list(self.tle)
             # extract the orbit epoch time
             tle_epochs = [self.get_epoch(i) for i in range(self.get_tle_count())]
-            self.__dict__["tle_epochs"] = tle_epochs
+            self.__dict__["tle_epochs"] = (tle, tle_epochs)
         # handle scalar
         if isinstance(at_times, datetime):
             idx = np.searchsorted(tle_epochs, at_times, side="left")
@@ -531,11 +532,14 @@ class TwoLineElements(LazyLoadModel):
         if lazy_load is None:
             lazy_load = config.rc.repeat_cycle_lazy_load
 
+        repeat_cycle = None
         if lazy_load:
-            repeat_cycle = self.__dict__.get("repeat_cycle")
-        else:
-            repeat_cycle = None
+            tle, repeat_cycle = self.__dict__.get("repeat_cycle", (None, None))
+            if tle != self.tle:
+                # the list of TLEs changed in place
+                repeat_cycle = None
         if repeat_cycle is None:
+            tle = list(self.tle)
             # extract the orbit epoch time
             epoch = self.get_epoch()
             # record the initial position and velocity in Earth-centered Earth-fixed frame
@@ -571,7 +575,7 @@ class TwoLineElements(LazyLoadModel):
             else:
                 # assign zero repeat cycle value to avoid recalculation
                 repeat_cycle = timedelta(0)
-            self.__dict__["repeat_cycle"] = repeat_cycle
+            self.__dict__["repeat_cycle"] = (tle, repeat_cycle)
         if repeat_cycle > timedelta(0):
             return repeat_cycle
         return None
-- 
2.43.0


From 41c7957ffcfec6728c7cfcac32a73ef852d4f500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:54 +0000
Subject: [PATCH 26/27] fix: keep all of a line ground track that crosses the
 anti-meridian or has a single sample

---
 src/tatc/analysis/track.py | 73 +++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 36 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 63e8482..e674ac0 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -22,9 +22,11 @@ from shapely.geometry import (
     MultiPolygon,
     Point,
     LineString,
+    MultiLineString,
     box,
 )
-from shapely.ops import clip_by_rect, split
+from shapely.affinity import translate
+from shapely.ops import clip_by_rect, split, unary_union
 import pyproj
 
 from ..schemas.instrument import PointedInstrument
@@ -32,6 +34,7 @@ from ..schemas.satellite import Satellite
 from ..utils import (
     buffer_footprint,
     field_of_regard_to_swath_width,
+    project_polygon_to_elevation,
 )
 from ..constants import de421, EARTH_MEAN_RADIUS, timescale
 
@@ -558,19 +561,24 @@ def compute_ground_track(
         )
         # filter to valid observations
         track = track[track.valid_obs].reset_index(drop=True)
-        segments = []
-        swath_widths = []
+        to_crs = pyproj.Transformer.from_crs(track.crs, pyproj.CRS(crs), always_xy=True)
+        from_crs = pyproj.Transformer.from_crs(
+            pyproj.CRS(crs), track.crs, always_xy=True
+        )
+        polygons = []
         for _, sub_track in track.groupby(["orbit_id", "track_id"]):
             # project points to specified elevation
-            points = sub_track.geometry.apply(lambda p: Point(p.x, p.y, elevation))
+            points = [Point(p.x, p.y, elevation) for p in sub_track.geometry]
             # extract longitudes
-            lon = sub_track.geometry.apply(lambda p: p.x)
+            lon = [p.x for p in points]
             # extract average swath width
-            swath_widths.append(sub_track.swath_width.mean())
+            swath_width = sub_track.swath_width.mean()
+            if len(points) == 1:
+                segments = points
             # no anti-meridian crossings if all absolute longitude differences
             # are less than 180 deg
-            if np.all(np.abs(np.diff(lon)) < 180):
-                segments.append(LineString(points))
+            elif np.all(np.abs(np.diff(lon)) < 180):
+                segments = [LineString(points)]
             else:
                 # find anti-meridian crossings and calculate shift direction
                 # coords from W -> E (shift < 0) will add 360 degrees to E component
@@ -579,39 +587,32 @@ def compute_ground_track(
                 points = [
                     Point(p.x - 360 * shift[i], p.y, p.z) for i, p in enumerate(points)
                 ]
-                # split along the anti-meridian (-180 for shift > 0; 180 for shift < 0)
-                shift_dir = -180 if shift.max() >= 1 else 180
+                # split along the anti-meridian
                 collection = split(
                     LineString(points),
-                    LineString([(shift_dir, -180), (shift_dir, 180)]),
+                    MultiLineString(
+                        [[(x, -180), (x, 180)] for x in (-540, -180, 180, 540)]
+                    ),
                 )
-                # map longitudes from (-540, -180] to (-180, 180] and from [180, 540) to [-180, 180)
-                segments.extend(
-                    [
-                        (
-                            LineString([(c[0] + 360, c[1], c[2]) for c in line.coords])
-                            if np.all([c[0] <= -180 for c in line.coords])
-                            else (
-                                LineString(
-                                    [(c[0] - 360, c[1], c[2]) for c in line.coords]
-                                )
-                                if np.all([c[0] >= 180 for c in line.coords])
-                                else LineString(
-                                    [(c[0], c[1], c[2]) for c in line.coords]
-                                )
+                # map longitudes to [-180, 180]
+                segments = [
+                    translate(line, xoff=-360 * np.floor((line.centroid.x + 180) / 360))
+                    for line in collection.geoms
+                ]
+            # merge the polygons of all segments
+            polygons.append(
+                project_polygon_to_elevation(
+                    unary_union(
+                        [
+                            buffer_footprint(
+                                segment, to_crs, from_crs, swath_width, elevation
                             )
-                        )
-                        for line in collection.geoms
-                    ]
+                            for segment in segments
+                        ]
+                    ),
+                    elevation,
                 )
-        to_crs = pyproj.Transformer.from_crs(track.crs, pyproj.CRS(crs), always_xy=True)
-        from_crs = pyproj.Transformer.from_crs(
-            pyproj.CRS(crs), track.crs, always_xy=True
-        )
-        polygons = [
-            buffer_footprint(segment, to_crs, from_crs, swath_width, elevation)
-            for segment, swath_width in zip(segments, swath_widths)
-        ]
+            )
         # dissolve the original track
         track = track.dissolve(by=["orbit_id", "track_id"]).reset_index(drop=True)
         # and replace the geometry with the union of computed polygons
-- 
2.43.0


From 22ab5e94bcdd3bb9b38a7639d59dbda262697577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 27/27] fix: ground tracks of lines around the globe no longer
 raise for wide swaths

---
 src/tatc/analysis/track.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index e674ac0..2922abd 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -575,10 +575,6 @@ def compute_ground_track(
             swath_width = sub_track.swath_width.mean()
             if len(points) == 1:
                 segments = points
-            # no anti-meridian crossings if all absolute longitude differences
-            # are less than 180 deg
-            elif np.all(np.abs(np.diff(lon)) < 180):
-                segments = [LineString(points)]
             else:
                 # find anti-meridian crossings and calculate shift direction
                 # coords from W -> E (shift < 0) will add 360 degrees to E component
@@ -587,11 +583,12 @@ def compute_ground_track(
                 points = [
                     Point(p.x - 360 * shift[i], p.y, p.z) for i, p in enumerate(points)
                 ]
-                # split along the anti-meridian
+                # split along the anti-meridian (and the prime meridian because
+                # buffered segments must span less than 360 degrees longitude)
                 collection = split(
                     LineString(points),
                     MultiLineString(
-                        [[(x, -180), (x, 180)] for x in (-540, -180, 180, 540)]
+                        [[(x, -180), (x, 180)] for x in range(-540, 541, 180)]
                     ),
                 )
                 # map longitudes to [-180, 180]
-- 
2.43.0

