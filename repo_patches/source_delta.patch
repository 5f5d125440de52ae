From d767b696978e6475f97e1bcc6f3d04964d9c84eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:05 +0000
Subject: [PATCH 01/41] fix: canopy meteorology crashed when air temperature
 was missing for part of the forest pixels

---
 openamundsen/modules/canopy/canopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index 49fd295..fd74e93 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -91,7 +91,7 @@ class CanopyModel:
         pos_finite_temp = pos & np.isfinite(mean_24h_temp)
         delta_t = ((mean_24h_temp[pos_finite_temp] - c.T0) / 3).clip(-2, 2)  # eq. (5)
         s.meteo.temp[pos_finite_temp] -= (  # eq. (4)
-            canopy_frac
+            canopy_frac[pos_finite_temp[pos]]
             * (
                 s.meteo.temp[pos_finite_temp]
                 - (
-- 
2.43.0


From b25b73f09820f2b4554a92deec87487ebf71d455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:21 +0000
Subject: [PATCH 02/41] fix: canopy snow store was lost when LAI decreased and
 became NaN forever after missing forcing

---
 openamundsen/modules/canopy/canopy.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index fd74e93..99278dd 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -187,12 +187,15 @@ class CanopyModel:
         max_interception_storage = (
             model.config.canopy.max_interception_storage_coefficient * s.land_cover.lai_eff[pos]
         )
-        new_canopy_intercepted_load = s.snow.canopy_intercepted_load[pos] + 0.7 * (
-            max_interception_storage - s.snow.canopy_intercepted_load[pos]
-        ) * (1 - np.exp(-s.meteo.snowfall[pos] / max_interception_storage))
+        snowfall = np.nan_to_num(s.meteo.snowfall[pos])  # no interception if snowfall is missing
         s.snow.canopy_intercepted_snowfall[pos] = (
-            new_canopy_intercepted_load - s.snow.canopy_intercepted_load[pos]
+            0.7
+            * (max_interception_storage - s.snow.canopy_intercepted_load[pos])
+            * (1 - np.exp(-snowfall / max_interception_storage))
         ).clip(min=0)
+        new_canopy_intercepted_load = (
+            s.snow.canopy_intercepted_load[pos] + s.snow.canopy_intercepted_snowfall[pos]
+        )
         s.snow.canopy_intercepted_load[pos] = new_canopy_intercepted_load
 
         # Canopy exposure coefficient (eq. (23))
@@ -221,7 +224,7 @@ class CanopyModel:
         s.snow.canopy_melt[pos] = np.minimum(
             (
                 model.config.canopy.degree_day_factor
-                * (s.meteo.temp[pos] - c.T0).clip(min=0)
+                * np.nan_to_num(s.meteo.temp[pos] - c.T0).clip(min=0)
                 * model.timestep
                 / (c.SECONDS_PER_HOUR * c.HOURS_PER_DAY)
             ),
@@ -231,6 +234,9 @@ class CanopyModel:
 
         # Precipitation reaching the ground: reduce snowfall by canopy interception and increase by
         # melt unload
+        # (also where snowfall itself is missing)
+        unload = pos & (s.snow.canopy_melt > 0)
+        s.meteo.snowfall[unload] = np.nan_to_num(s.meteo.snowfall[unload])
         s.meteo.snowfall[pos] -= s.snow.canopy_intercepted_snowfall[pos]
         s.meteo.snowfall[pos] += s.snow.canopy_melt[pos]
         s.meteo.precip[pos] = s.meteo.snowfall[pos] + s.meteo.rainfall[pos]
-- 
2.43.0


From 905313ea28dcf3ce4a3caeb99f63fae15096f213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:21 +0000
Subject: [PATCH 03/41] fix: multilayer relayering divided by the zero
 thickness of vanished layers and poisoned the pixel with NaN

---
 openamundsen/modules/snow/multilayermodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openamundsen/modules/snow/multilayermodel.py b/openamundsen/modules/snow/multilayermodel.py
index 9d04ccf..d6709d6 100644
--- a/openamundsen/modules/snow/multilayermodel.py
+++ b/openamundsen/modules/snow/multilayermodel.py
@@ -612,6 +612,9 @@ def _update_layers(
 
             # TODO optimize this loop
             for k_old in range(num_layers_prev[i, j]):
+                if thickness_prev[k_old, i, j] <= 0.0:  # layer has vanished within this time step
+                    continue
+
                 while True:  # TODO replace with normal loop
                     weight = min(new_thickness / thickness_prev[k_old, i, j], 1.0)
 
-- 
2.43.0


From f7afed81ffbbd80e073e00aa1288d0a8e448c6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:04 +0000
Subject: [PATCH 04/41] fix: radiation stations inside the grid but outside the
 ROI made all shortwave radiation missing

---
 openamundsen/modules/radiation/irradiance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openamundsen/modules/radiation/irradiance.py b/openamundsen/modules/radiation/irradiance.py
index edbb57a..6ed7063 100644
--- a/openamundsen/modules/radiation/irradiance.py
+++ b/openamundsen/modules/radiation/irradiance.py
@@ -187,6 +187,9 @@ def shortwave_irradiance(model):
             "station",
             subset=["sw_in"],
         )
+        # The cloud factor can only be derived where clear-sky radiation is available (i.e., not for
+        # stations within the grid extent but outside of the ROI)
+        ds_rad = ds_rad.isel(station=m.sw_in_clearsky[ds_rad.row, ds_rad.col] > 0)
         num_rad_stations = len(ds_rad.station)
 
         if model.sun_params["sun_over_horizon"]:
-- 
2.43.0


From 1ed3c3b511cc352a56dc481e5ddb91f4256e1fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:45 +0000
Subject: [PATCH 05/41] fix: numba thread count of the process was not restored
 when a time step raised

---
 openamundsen/model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index 1fe1f64..db5b958 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -252,6 +252,13 @@ class OpenAmundsen:
             prev_num_threads = numba.get_num_threads()
             numba.set_num_threads(self._numba_threads)
 
+        try:
+            self._process_time_step()
+        finally:
+            if self._numba_threads is not None:
+                numba.set_num_threads(prev_num_threads)
+
+    def _process_time_step(self):
         if self.date_idx is None:
             self.date_idx = 0
         elif self.date_idx == len(self.dates) - 1:
@@ -281,9 +288,6 @@ class OpenAmundsen:
             logger.debug("Updating live view window")
             self.liveview.update(self.date)
 
-        if self._numba_threads is not None:
-            numba.set_num_threads(prev_num_threads)
-
     def global_mask(self, mask, global_mask=None, global_idxs=None):
         if global_idxs is None:
             if global_mask is None:
-- 
2.43.0


From 81c64af199a2f14e165accf03808d5bf98e63fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:51 +0000
Subject: [PATCH 06/41] fix: WMO precipitation correction rejected every gauge
 type except hellmann

---
 openamundsen/meteo/precipcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/precipcorr.py b/openamundsen/meteo/precipcorr.py
index 7a83ff5..1c2a738 100644
--- a/openamundsen/meteo/precipcorr.py
+++ b/openamundsen/meteo/precipcorr.py
@@ -180,7 +180,7 @@ def correct_station_precipitation(model):
             elif gauge == "us_unsh":
                 cr[pos_snow] = np.exp(4.61 - 0.16 * wind_speeds_2m[pos_snow] ** 1.28)
                 cr[pos_mixed] = 100.77 - 8.34 * wind_speeds_2m[pos_mixed]
-            if gauge == "hellmann":
+            elif gauge == "hellmann":
                 cr[pos_snow] = (
                     100 + 1.13 * wind_speeds_2m[pos_snow] ** 2 - 19.45 * wind_speeds_2m[pos_snow]
                 )
-- 
2.43.0


From 05562f61c645d768f0b1b3fdf3dd6bee09279668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:34 +0000
Subject: [PATCH 07/41] fix: time series output failed or appended to a stale
 file when the first write date was no model date

---
 openamundsen/fileio/pointoutput.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/openamundsen/fileio/pointoutput.py b/openamundsen/fileio/pointoutput.py
index fcd44ca..e17a128 100644
--- a/openamundsen/fileio/pointoutput.py
+++ b/openamundsen/fileio/pointoutput.py
@@ -401,15 +401,18 @@ class PointOutputManager:
                 ds_var.values[date_idx, :, :] = var_data[:, self.point_rows, self.point_cols]
 
         # Write data to file
-        # If we are at the first write date, simple write the file (i.e. overwrite possibly
-        # existing files), otherwise merge the already written dataset with the in-memory one.
+        # If this is the first chunk of the model run, simple write the file (i.e. overwrite
+        # possibly existing files), otherwise merge the already written dataset with the in-memory
+        # one.
+        first_chunk = ds.indexes["time"][0] == self.model.dates[0]
+
         if self.format != "memory" and date == ds.indexes["time"][-1]:
             logger.debug("Writing point outputs")
 
             if self.format == "netcdf":
                 filename = self.model.config.results_dir / "output_timeseries.nc"
 
-                if date == self.write_dates[0]:
+                if first_chunk:
                     ds.to_netcdf(filename, engine=constants.NETCDF_ENGINE)
                 else:
                     with xr.open_dataset(filename) as old_ds:
@@ -448,7 +451,7 @@ class PointOutputManager:
 
                     df = ds_out_point.to_dataframe()
 
-                    if date == self.write_dates[0]:
+                    if first_chunk:
                         df.to_csv(filename)
                     else:
                         df.to_csv(filename, mode="a", header=False)
-- 
2.43.0


From 019731ad29252cb3dc0658d120a798363af1eb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:52 +0000
Subject: [PATCH 08/41] fix: an interrupted write of the NetCDF time series
 lost all previously written data

---
 openamundsen/fileio/pointoutput.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openamundsen/fileio/pointoutput.py b/openamundsen/fileio/pointoutput.py
index e17a128..d98637e 100644
--- a/openamundsen/fileio/pointoutput.py
+++ b/openamundsen/fileio/pointoutput.py
@@ -1,4 +1,5 @@
 import logging
+import os
 import pprint
 from dataclasses import dataclass
 
@@ -423,7 +424,11 @@ class PointOutputManager:
 
                         ds_merge = xr.concat([old_ds, ds], "time")
 
-                    ds_merge.to_netcdf(filename, engine=constants.NETCDF_ENGINE)
+                    # Do not overwrite the existing file in place, otherwise the already written
+                    # data would be lost if writing is interrupted
+                    tmp_filename = filename.with_suffix(".nc.tmp")
+                    ds_merge.to_netcdf(tmp_filename, engine=constants.NETCDF_ENGINE)
+                    os.replace(tmp_filename, filename)
             elif self.format == "csv":
                 ds_out = ds.copy()
 
-- 
2.43.0


From 0d2b9e75767710ff4849ac9edfbaba342e1bf5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:10 +0000
Subject: [PATCH 09/41] fix: with extrapolation disabled relative humidity was
 clipped to the range of the dew point temperatures

---
 openamundsen/meteo/interpolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index 6cc252e..f107ed2 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -514,6 +514,7 @@ def interpolate_param(
         vapor_press = meteo.saturation_vapor_pressure(target_dew_point_temps, "water")
         sat_vapor_press = meteo.saturation_vapor_pressure(target_temps, "water")
         data_interpol = 100 * vapor_press / sat_vapor_press
+        data = rel_hums
 
     # Restrict interpolated values to the range of the point values if extrapolation is disabled in
     # the parameter config
-- 
2.43.0


From 6ea328be94db7f58e13d87ebd11e8c847b2c6cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:38 +0000
Subject: [PATCH 10/41] fix: rain did not refill the surface soil layer because
 percolation ignored its depletion (FAO-56 eq. 79)

---
 openamundsen/modules/evapotranspiration/evapotranspiration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/evapotranspiration/evapotranspiration.py b/openamundsen/modules/evapotranspiration/evapotranspiration.py
index aeb9bc6..18df8ad 100644
--- a/openamundsen/modules/evapotranspiration/evapotranspiration.py
+++ b/openamundsen/modules/evapotranspiration/evapotranspiration.py
@@ -480,7 +480,7 @@ class EvapotranspirationModel:
             precip
             - precip_runoff
             + irrigation / wetted_frac
-            - s_et.deep_percolation_evaporation_layer[pos]
+            - s_et.cum_soil_surface_depletion[pos]
         ).clip(min=0)
         s_et.cum_soil_surface_depletion[pos] = (  # eq. (77)
             s_et.cum_soil_surface_depletion[pos]
-- 
2.43.0


From 90d97b4be13f62a4b5385eb6cd5a861f004a7eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:48 +0000
Subject: [PATCH 11/41] fix: runoff of sealed surfaces was repeated in every
 dry time step following a rain event

---
 openamundsen/modules/evapotranspiration/evapotranspiration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openamundsen/modules/evapotranspiration/evapotranspiration.py b/openamundsen/modules/evapotranspiration/evapotranspiration.py
index 18df8ad..88ce879 100644
--- a/openamundsen/modules/evapotranspiration/evapotranspiration.py
+++ b/openamundsen/modules/evapotranspiration/evapotranspiration.py
@@ -557,6 +557,7 @@ class EvapotranspirationModel:
         runoff = (s_et.sealed_interception[pos_rain] - max_interception).clip(min=0)
         s_et.sealed_interception[pos_rain] -= runoff
         s_et.deep_percolation[pos_rain] = runoff  # runoff is currently treated as deep percolation for sealed surfaces (should be improved) # fmt: skip # noqa: E501
+        s_et.deep_percolation[pos_dry] = 0.0
         s_et.evaporation[pos_rain] = 0.0
 
         rs = 0.0  # stomatal resistance (s m-1)
-- 
2.43.0


From 7a11ccfbf5d33bf9716e7ab3b6600a14251ef0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:33 +0000
Subject: [PATCH 12/41] fix: sky view factor cache was written non-atomically
 and the first run used other values than later runs

---
 openamundsen/model.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index db5b958..fed7378 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -606,9 +606,8 @@ class OpenAmundsen:
                     self.grid.resolution,
                     num_sweeps=self.config.meteo.radiation.num_shadow_sweeps,
                 )
-                self.state.base.svf[:] = svf
                 logger.debug(f"Writing sky view factor file ({svf_file})")
-                fileio.write_raster_file(svf_file, svf, self.grid.transform, decimal_precision=3)
+                self.state.base.svf[:] = _cache_svf(svf_file, svf, self.grid.transform)
 
         if roi_file.exists():
             logger.info(f"Reading ROI ({roi_file})")
@@ -754,7 +753,7 @@ class OpenAmundsen:
                 num_sweeps=self.config.meteo.radiation.num_shadow_sweeps,
             )
             logger.debug(f"Writing extended sky view factor file ({extended_svf_file})")
-            fileio.write_raster_file(extended_svf_file, ext_svf, ext_transform, decimal_precision=3)
+            ext_svf = _cache_svf(extended_svf_file, ext_svf, ext_transform)
 
         row_offset = int(ext_offset_ul[0])
         col_offset = int(ext_offset_ul[1])
@@ -980,6 +979,17 @@ class OpenAmundsen:
         )
 
 
+def _cache_svf(filename, svf, transform):
+    """
+    Write a sky view factor file (atomically, because other model runs might use the same directory)
+    and return the data as stored in the file, i.e., as it will be used by subsequent model runs.
+    """
+    tmp_filename = filename.with_name(f"{filename.name}.{os.getpid()}.tmp")
+    fileio.write_raster_file(tmp_filename, svf, transform, decimal_precision=3)
+    os.replace(tmp_filename, filename)
+    return fileio.read_raster_file(filename, fill_value=np.nan, dtype=float)
+
+
 def Model(*args, **kwargs):
     import warnings
 
-- 
2.43.0


From 476ea8c7d781b9a56131486d1f1c803dced89b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:47 +0000
Subject: [PATCH 13/41] fix: configuration objects with deprecated keys were
 modified in place by parse_config

---
 openamundsen/conf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openamundsen/conf.py b/openamundsen/conf.py
index 96ed4c6..f8a8bf9 100644
--- a/openamundsen/conf.py
+++ b/openamundsen/conf.py
@@ -57,11 +57,14 @@ class ConfigurationValidator(cerberus.Validator):
     def _normalize_coerce_meteo_interpolation(self, d: dict[str, Any]) -> dict[str, Any]:
         # 'wind_speed' is deprecated -> change to 'wind'
         if "wind_speed" in d:
+            d = d.copy()  # do not modify the configuration passed by the caller
             d["wind"] = d.pop("wind_speed")
 
         return d
 
     def _normalize_coerce_cloudiness(self, d: dict[str, Any]) -> dict[str, Any]:
+        d = d.copy()  # do not modify the configuration passed by the caller
+
         # 'day_method' is deprecated -> change to 'method'
         if "day_method" in d:
             if "method" not in d:
-- 
2.43.0


From 7bc94921c8bda99a25fbfc50a3b8a29d82a90021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:10 +0000
Subject: [PATCH 14/41] fix: glacier IDs were erased by reset_state_variables,
 disabling the glacier geometry update

---
 openamundsen/modules/glacier/glaciermodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index e83ffe5..e274eae 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -28,7 +28,7 @@ class GlacierModel:
         self.model = model
         s = model.state
         sg = s.add_category("glaciers")
-        sg.add_variable("glacier", long_name="Glacier ID", dtype=int)
+        sg.add_variable("glacier", long_name="Glacier ID", dtype=int, retain=True)
         self.mass_balance_start_we = None
 
     def initialize(self):
-- 
2.43.0


From 908c8d56c267343a4149bb205ef17fdb1b8bdb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:56 +0000
Subject: [PATCH 15/41] fix: write errors (e.g. a full disk) were silently
 ignored for GeoTIFF output

---
 openamundsen/fileio/raster.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/openamundsen/fileio/raster.py b/openamundsen/fileio/raster.py
index b1cec26..58ae2ef 100644
--- a/openamundsen/fileio/raster.py
+++ b/openamundsen/fileio/raster.py
@@ -1,3 +1,5 @@
+from pathlib import Path
+
 import rasterio
 
 from openamundsen.errors import RasterFileError
@@ -130,5 +132,14 @@ def write_raster_file(filename, data, transform, **kwargs):
     }
     meta.update(kwargs)
 
-    with rasterio.open(filename, "w", **meta) as ds:
-        ds.write(data, 1)
+    if meta["driver"] == "GTiff":
+        # GDAL does not report errors (e.g. a full disk) that occur when the buffered data of a GeoTIFF
+        # is flushed, so build the file in memory and write it ourselves
+        with rasterio.MemoryFile() as memfile:
+            with memfile.open(**meta) as ds:
+                ds.write(data, 1)
+
+            Path(filename).write_bytes(memfile.getbuffer())
+    else:
+        with rasterio.open(filename, "w", **meta) as ds:
+            ds.write(data, 1)
-- 
2.43.0


From 105704131c9ad238976cc4561d86bf61198d4752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:10 +0000
Subject: [PATCH 16/41] fix: precipitation was shifted by one day when daily
 data was used with a time step given as "1D" or "24h"

---
 openamundsen/fileio/meteo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index e9558ee..20cc542 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -330,7 +330,7 @@ def _slice_and_resample_dataset(ds, start_date, end_date, freq, aggregate=False)
 
         end_date = (end_date + td_1d).normalize()
 
-    if inferred_freq is not None and inferred_freq != freq:
+    if inferred_freq is not None and util.to_offset(inferred_freq) != util.to_offset(freq):
         # keep data from previous day for aggregation, if present
         ds = ds.sel(time=slice(start_date - td_1d, end_date))
         ds = _resample_dataset(ds, start_date, end_date, freq, aggregate=aggregate)
-- 
2.43.0


From 074e1968f13f79a74d4aa15b7b4c32554daa7314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:10 +0000
Subject: [PATCH 17/41] fix: stations whose sub-daily records do not start at
 midnight were lost when aggregating to daily time steps

---
 openamundsen/fileio/meteo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index 20cc542..b683d28 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -381,7 +381,7 @@ def _resample_dataset(ds, start_date, end_date, freq, aggregate=False):
         resample_kwargs = {
             "label": "left",
             "closed": "right",
-            "origin": "start",
+            "origin": pd.Timestamp(start_date),
         }
     else:
         raise errors.MeteoDataError("Resampling to frequencies > 1 day is not supported")
-- 
2.43.0


From c1b15fbc51c90d22918e70433fd9431712a432a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:10 +0000
Subject: [PATCH 18/41] fix: aggregation crashed if a station only has data for
 the day before the start date

---
 openamundsen/fileio/meteo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index b683d28..6592580 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -403,7 +403,7 @@ def _resample_dataset(ds, start_date, end_date, freq, aggregate=False):
 
         # We might end up with an extra bin after resampling; remove it here
         df_res = df_res.loc[start_date:end_date]
-        if df_res.index[0] < df.index[0]:
+        if len(df_res) > 0 and df_res.index[0] < df.index[0]:
             df_res = df_res.iloc[1:]
     else:
         # Take the instantaneous values
-- 
2.43.0


From f4eb3c0f76760bef7abeb9363079161d00960645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:10 +0000
Subject: [PATCH 19/41] fix: time steps not covered by any station inside the
 simulation period crashed the run when they were reached

---
 openamundsen/fileio/meteo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index 6592580..a30f7e4 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -149,11 +149,11 @@ def read_meteo_data(
     ds_combined = forcing.combine_point_datasets(datasets)
     dates_combined = ds_combined.time.to_index()
 
-    if dates_combined[0] > start_date or dates_combined[-1] < end_date:
+    dates = pd.date_range(start=start_date, end=end_date, freq=freq)
+
+    if not dates.isin(dates_combined).all():
         if not raise_on_missing_data:
-            ds_combined = ds_combined.reindex(
-                time=pd.date_range(start=start_date, end=end_date, freq=freq),
-            )
+            ds_combined = ds_combined.reindex(time=dates)
         else:
             raise errors.MeteoDataError(
                 "Insufficient meteo data available.\n"
-- 
2.43.0


From c55fb8dc5583e51d47f6829f109b8c4c9498cd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:16 +0000
Subject: [PATCH 20/41] fix: aggregation failed if the data of a station ends
 within an aggregation interval

---
 openamundsen/fileio/meteo.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index a30f7e4..0cd2615 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -401,10 +401,9 @@ def _resample_dataset(ds, start_date, end_date, freq, aggregate=False):
         if "wind_dir" in df.columns:
             df_res["wind_dir"] = _aggregate_wind_dir(df, freq, resample_kwargs)
 
-        # We might end up with an extra bin after resampling; remove it here
-        df_res = df_res.loc[start_date:end_date]
-        if len(df_res) > 0 and df_res.index[0] < df.index[0]:
-            df_res = df_res.iloc[1:]
+        # We might end up with extra (i.e., only partly covered) bins after resampling; remove them
+        # here
+        df_res = df_res.loc[max(start_date, df.index[0]) : min(end_date, df.index[-1])]
     else:
         # Take the instantaneous values
         df_res = df.reindex(
-- 
2.43.0


From 619bb806c2da378ae641f8e0f7c9f781c7944eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:16 +0000
Subject: [PATCH 21/41] fix: empty CSV meteo files crashed the model
 initialization

---
 openamundsen/fileio/meteo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index 0cd2615..9a76cd8 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -233,6 +233,7 @@ def read_csv_meteo_file(filename, station_id, station_name, x, y, alt, crs):
     """
     lon, lat = util.transform_coords(x, y, crs, constants.CRS_WGS84)
     df = pd.read_csv(filename, parse_dates=True, index_col=0)
+    df.index = pd.to_datetime(df.index)  # (the dates are not parsed if the file is empty)
 
     if "precip" in df.columns:
         pass
-- 
2.43.0


From e4e3dea05210d34944e1ed937d2cb04f7c0fc521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:09 +0000
Subject: [PATCH 22/41] fix: cloud fractions given as 0-1 in files without
 units were not recognized, and empty data raised an error

The number of dataset variables instead of the number of records was
checked before applying the 0-1 heuristic.
---
 openamundsen/forcing.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/openamundsen/forcing.py b/openamundsen/forcing.py
index 9dbb627..f23cb0a 100644
--- a/openamundsen/forcing.py
+++ b/openamundsen/forcing.py
@@ -142,10 +142,13 @@ def make_point_dataset(
             # explicitly set to "1" or if no units are set but the maximum cloud fraction value is
             # <= 1. (As the cloud_fraction model variable has units "1" but for the forcing data
             # units "%" are expected, this could happen easily.)
-            if data["cloud_fraction"].attrs.get("units") == "1" or (
-                len(data) > 10 and data["cloud_fraction"].max() <= 1
+            cloud_fraction_units = data["cloud_fraction"].attrs.get("units")
+            if cloud_fraction_units == "1" or (
+                cloud_fraction_units is None
+                and len(dates) > 10
+                and data["cloud_fraction"].max() <= 1
             ):
-                data["cloud_fraction"] *= 100
+                data["cloud_fraction"] = data["cloud_fraction"] * 100
                 data["cloud_fraction"].attrs["units"] = "%"
 
         units = meta["units"]
-- 
2.43.0


From faca561c2afd37e7ccb41b085d97df65a01285f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:23 +0000
Subject: [PATCH 23/41] fix: avoid data race in the openness calculation

The loop over the distances updates the running minimum of shared pixels, i.e.,
must not be parallelized.
---
 openamundsen/terrain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openamundsen/terrain.py b/openamundsen/terrain.py
index 0a215b1..0d44fb1 100644
--- a/openamundsen/terrain.py
+++ b/openamundsen/terrain.py
@@ -1,7 +1,7 @@
 import logging
 
 import numpy as np
-from numba import njit, prange
+from numba import njit
 
 from openamundsen.modules.radiation import shadows
 
@@ -333,7 +333,7 @@ def openness(dem, res, L, negative=False, mean=True):
     return opn
 
 
-@njit(cache=True, parallel=True)
+@njit(cache=True)
 def _openness_dir(dem, res, L, dir):  # noqa: A002
     """
     Calculate topographic openness for a DEM and a single compass direction.
@@ -360,7 +360,7 @@ def _openness_dir(dem, res, L, dir):  # noqa: A002
     """
     opn_dir = np.full(dem.shape, np.inf)
 
-    for i in prange(int(np.ceil(L / res))):
+    for i in range(int(np.ceil(L / res))):
         dist = res * (i + 1) * [1, np.sqrt(2)][dir % 2]
         Z_shift = _shift_arr_retain(dem, dir, i)
         angle = np.pi / 2 - np.arctan2(Z_shift - dem, dist)
-- 
2.43.0


From d3270fd0e742e2aaf0e8243414d8e73739930155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:23 +0000
Subject: [PATCH 24/41] fix: do not divide by zero when normalizing constant
 arrays

On uniform terrain the topographic wind correction yielded NaN wind speeds.
---
 openamundsen/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openamundsen/util.py b/openamundsen/util.py
index 0a40726..7de9e5d 100644
--- a/openamundsen/util.py
+++ b/openamundsen/util.py
@@ -380,5 +380,9 @@ def normalize_array(data, min, max):  # noqa: A002
     data = np.asarray(data)
     data_min = np.nanmin(data)
     data_max = np.nanmax(data)
+
+    if data_max == data_min:  # constant data, i.e., there is nothing to be scaled
+        return np.where(np.isnan(data), np.nan, 0.5 * (min + max))
+
     scale_factor = (max - min) / (data_max - data_min)
     return min + scale_factor * (data - data_min)
-- 
2.43.0


From 8456945ce017c15646c6b1a7f87d3b09ff44672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:23 +0000
Subject: [PATCH 25/41] fix: do not set wind to NaN for flat pixels in the
 Liston wind correction

The aspect of flat pixels is undefined, which led to missing wind speeds and
directions there.
---
 openamundsen/meteo/interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index f107ed2..cf8ae35 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -577,6 +577,8 @@ def _liston_wind_correction(
     wind_slope = (  # slope in the direction of the wind (eq. (15))
         np.deg2rad(target_slopes) * np.cos(wind_dir_minus_aspect)
     )
+    is_flat = target_slopes == 0  # (the aspect of flat pixels is undefined)
+    wind_slope[is_flat] = 0.0
     wind_slope_scaled = util.normalize_array(wind_slope, -0.5, 0.5)
     wind_weighting_factor = (  # eq. (16)
         1
@@ -586,6 +588,7 @@ def _liston_wind_correction(
     wind_dir_diverting_factor = (  # eq. (18)
         -0.5 * wind_slope_scaled * np.sin(-2 * wind_dir_minus_aspect)
     )
+    wind_dir_diverting_factor[is_flat] = 0.0
     wind_speed_corr = wind_speed_roi * wind_weighting_factor
     wind_dir_corr = (wind_dir_roi + wind_dir_diverting_factor) % 360
 
-- 
2.43.0


From 135bbca4f2983a11b1be55dce1d005acb7bfed17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:49 +0000
Subject: [PATCH 26/41] fix: use the configured cloud emissivity and rock
 emission factor

meteo.radiation.cloud_emissivity and rock_emission_factor were ignored.
---
 openamundsen/modules/radiation/irradiance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openamundsen/modules/radiation/irradiance.py b/openamundsen/modules/radiation/irradiance.py
index 6ed7063..1fdb81e 100644
--- a/openamundsen/modules/radiation/irradiance.py
+++ b/openamundsen/modules/radiation/irradiance.py
@@ -292,9 +292,9 @@ def longwave_irradiance(model):
     m = model.state.meteo
     clear_sky_emissivity = meteo.clear_sky_emissivity(m.precipitable_water[roi])
 
-    # TODO these should be parameters
-    cloud_emissivity = 0.976  # emissivity of totally overcast skies (Greuell et al., 1997) # noqa: E501 # fmt: skip
-    rock_emission_factor = 0.01  # (K W-1 m2) temperature of emitting rocks during daytime is assumed to be higher than the air temperature by this factor multiplied by the incoming shortwave radiation (Greuell et al., 1997) # noqa: E501
+    rad_config = model.config.meteo.radiation
+    cloud_emissivity = rad_config.cloud_emissivity
+    rock_emission_factor = rad_config.rock_emission_factor
 
     # Incoming longwave radiation from the clear sky
     lw_in_clearsky = (
-- 
2.43.0


From 36408b7f6a9dbd0583cb4de4b47d50e0f36ae696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:24 +0000
Subject: [PATCH 27/41] fix: use the configured snow emissivity

meteo.radiation.snow_emissivity was ignored.
---
 openamundsen/surface.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 952212e..cb19554 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -508,9 +508,7 @@ def calc_radiation_balance(model, pos):
         Pixels for which the radiation fluxes should be calculated.
     """
     s = model.state
-
-    # TODO this should be a parameter
-    snow_emissivity = 0.99
+    snow_emissivity = model.config.meteo.radiation.snow_emissivity
 
     s.meteo.sw_out[pos] = s.surface.albedo[pos] * s.meteo.sw_in[pos]
     s.meteo.lw_out[pos] = snow_emissivity * constants.STEFAN_BOLTZMANN * s.surface.temp[pos] ** 4
-- 
2.43.0


From 92e5bbf5e4c861e200bcf10f25b7709851284bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:48 +0000
Subject: [PATCH 28/41] fix: leaf area index of land cover classes with several
 growing cycles

The growth stage lengths of the subcycles were concatenated instead of added,
i.e., such classes raised an error as soon as they had LAI parameters.
---
 openamundsen/landcover.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openamundsen/landcover.py b/openamundsen/landcover.py
index 98c9676..30ac286 100644
--- a/openamundsen/landcover.py
+++ b/openamundsen/landcover.py
@@ -68,8 +68,8 @@ class LandCover:
 
             lcc_lai = modules.evapotranspiration.crop_coefficient(
                 growing_period_day,
-                0,  # no initial period with constant LAI
-                length_ini + length_dev,
+                np.zeros_like(length_ini),  # no initial period with constant LAI
+                np.add(length_ini, length_dev),
                 length_mid,
                 length_late,
                 min_lai,
-- 
2.43.0


From 972072a40d63340fda91fa07fd5a7dfd53448f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:48 +0000
Subject: [PATCH 29/41] fix: air density in the evaporation of sealed surfaces

The pressure was divided by the gas constant, but multiplied by the temperature.
---
 openamundsen/modules/evapotranspiration/evapotranspiration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/evapotranspiration/evapotranspiration.py b/openamundsen/modules/evapotranspiration/evapotranspiration.py
index 88ce879..148da66 100644
--- a/openamundsen/modules/evapotranspiration/evapotranspiration.py
+++ b/openamundsen/modules/evapotranspiration/evapotranspiration.py
@@ -580,7 +580,7 @@ class EvapotranspirationModel:
         ea = s.meteo.vap_press[pos_dry]  # actual vapor pressure (Pa)
 
         Tv = 1.01 * s.meteo.top_canopy_temp[pos_dry]  # virtual temperature (K)
-        rhoa = s.meteo.atmos_press[pos_dry] / c.GAS_CONSTANT_DRY_AIR * Tv  # air density at constant pressure (kg m-3) # fmt: skip # noqa: E501
+        rhoa = s.meteo.atmos_press[pos_dry] / (c.GAS_CONSTANT_DRY_AIR * Tv)  # air density at constant pressure (kg m-3) # fmt: skip # noqa: E501
         cp = (  # specific heat at constant pressure (J kg-1 K-1) (p. 26)
             gamma * 0.622 * c.LATENT_HEAT_OF_VAPORIZATION / s.meteo.atmos_press[pos_dry]
         )
-- 
2.43.0


From 60364fbf1ce0e3f9567f1422ca6dd3f85beb8108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:50 +0000
Subject: [PATCH 30/41] fix: signs of the turbulent flux changes in the snow
 surface energy balance

---
 openamundsen/surface.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index cb19554..804ceab 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -199,7 +199,7 @@ def multilayer_energy_balance(model):
     s.surface.sens_heat_flux[roi] += sens_heat_flux_change
     calc_radiation_balance(model, roi)
     calc_latent_heat(model, roi)
-    calc_turbulent_fluxes(model, roi, sensible=False)
+    s.surface.lat_heat_flux[roi] = s.surface.lat_heat[roi] * s.surface.moisture_flux[roi]
 
 
 def cryo_layer_energy_balance(model):
@@ -760,8 +760,10 @@ def solve_energy_balance(model, pos):
         )
     )
 
+    # (opposed to [1], the turbulent fluxes are oriented towards the surface)
     surf_moisture_flux_change = (  # eq. (33) (kg m-2 s-1)
-        s.surface.moisture_availability[pos] * rhoa_CH_Ua * dQsat_by_dTs * surf_temp_change
+        -1
+        * s.surface.moisture_availability[pos] * rhoa_CH_Ua * dQsat_by_dTs * surf_temp_change
     )
 
     surf_heat_flux_change = (  # eq. (34) (W m-2)
@@ -769,7 +771,7 @@ def solve_energy_balance(model, pos):
     )
 
     sens_heat_flux_change = (  # eq. (35) (W m-2)
-        constants.SPEC_HEAT_CAP_DRY_AIR * rhoa_CH_Ua * surf_temp_change
+        -1 * constants.SPEC_HEAT_CAP_DRY_AIR * rhoa_CH_Ua * surf_temp_change
     )
 
     surf_temp_change[np.isnan(surf_temp_change)] = 0.0
-- 
2.43.0


From 8e648c90701d875f49e85dcf760a0a56a75e4847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:59 +0000
Subject: [PATCH 31/41] fix: snow emissivity in the surface temperature change

---
 openamundsen/surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 804ceab..9324fb8 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -727,6 +727,7 @@ def solve_energy_balance(model, pos):
        https://doi.org/10.5194/gmd-8-3867-2015
     """
     s = model.state
+    snow_emissivity = model.config.meteo.radiation.snow_emissivity
 
     rhoa_CH_Ua = (  # (kg m-2 s-1)
         s.meteo.dry_air_density[pos]
@@ -756,7 +757,7 @@ def solve_energy_balance(model, pos):
             )
             * rhoa_CH_Ua
             + 2 * s.surface.therm_cond[pos] / s.surface.thickness[pos]
-            + 4 * constants.STEFAN_BOLTZMANN * s.surface.temp[pos] ** 3
+            + 4 * snow_emissivity * constants.STEFAN_BOLTZMANN * s.surface.temp[pos] ** 3
         )
     )
 
-- 
2.43.0


From 813c79255b09792e963d1ba38f8857d9d2b7ffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:07 +0000
Subject: [PATCH 32/41] fix: lower boundary temperature of the snow heat
 conduction

---
 openamundsen/modules/snow/multilayermodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openamundsen/modules/snow/multilayermodel.py b/openamundsen/modules/snow/multilayermodel.py
index d6709d6..169d3f3 100644
--- a/openamundsen/modules/snow/multilayermodel.py
+++ b/openamundsen/modules/snow/multilayermodel.py
@@ -84,6 +84,7 @@ class MultilayerSnowModel(SnowModel):
             s.soil.thickness,
             model.timestep,
             s.snow.temp,
+            s.soil.temp,
             s.snow.therm_cond,
             s.soil.therm_cond,
             s.surface.heat_flux,
@@ -447,6 +448,7 @@ def _heat_conduction(
     soil_thickness,
     timestep,
     temp,
+    soil_temp,
     therm_cond_snow,
     therm_cond_soil,
     heat_flux,
@@ -476,6 +478,9 @@ def _heat_conduction(
     temp : ndarray(float, ndim=3)
         Snow temperature (K).
 
+    soil_temp : ndarray(float, ndim=3)
+        Soil temperature (K).
+
     therm_cond_snow : ndarray(float, ndim=3)
         Snow thermal conductivity (W m-1 K-1).
 
@@ -506,7 +511,7 @@ def _heat_conduction(
                 timestep,
                 temp[:ns, i, j],
                 therm_cond_snow[:ns, i, j],
-                temp[-1, i, j],
+                soil_temp[0, i, j],
                 soil_thickness[0, i, j],
                 therm_cond_soil[0, i, j],
                 heat_flux[i, j],
-- 
2.43.0


From 6f13e016f9b83f99325cacc06a02bacf977b0dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:15 +0000
Subject: [PATCH 33/41] fix: saturation humidity of melting cryo layer surfaces

---
 openamundsen/surface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 9324fb8..4e0a894 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -902,3 +902,4 @@ def iterate_surface_temperature(model, frosties):
 
         # TODO calculate melt when surface temperature is positive after iteration?
         s.surface.temp[frosties] = s.surface.temp[frosties].clip(max=constants.T0)
+        calc_saturation_specific_humidity(model, frosties)
-- 
2.43.0


From 968a18d4cf0dc89917c571f34d53ff72c987aaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:25 +0000
Subject: [PATCH 34/41] fix: conserve ice mass in the glacier geometry update

---
 openamundsen/modules/glacier/glaciermodel.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index e274eae..b9165d9 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -65,7 +65,7 @@ class GlacierModel:
         firn_mb = mb_layers[CryoLayerID.FIRN, :]
         mb = ice_mb + firn_mb
         old_ice_thickness = self.mass_balance_start_we[CryoLayerID.ICE, :] / c.ICE_DENSITY
-        new_ice_thickness = s.snow.thickness[CryoLayerID.ICE, :].copy()
+        new_ice_we = s.snow.ice_content[CryoLayerID.ICE, :].copy()
 
         for gid in self.glacier_ids:
             gpos = (s.glaciers.glacier == gid) & (old_ice_thickness > 0.0)
@@ -121,14 +121,21 @@ class GlacierModel:
                 max_allowed_change,
             )
 
-            new_ice_thickness[update_pos] = (
-                old_ice_thickness[update_pos] + (mass_change - firn_mb[update_pos]) / c.ICE_DENSITY
+            new_ice_we[update_pos] = (
+                self.mass_balance_start_we[CryoLayerID.ICE, update_pos]
+                + mass_change
+                - firn_mb[update_pos]
             ).clip(min=0.0)
 
-        s.snow.thickness[CryoLayerID.ICE, :] = new_ice_thickness
-        s.snow.ice_content[CryoLayerID.ICE, :] = new_ice_thickness * c.ICE_DENSITY
+        # Ice at pixels which had become ice-free during the year
+        regained = (new_ice_we > 0.0) & ~(s.snow.ice_content[CryoLayerID.ICE, :] > 0.0)
+        s.snow.density[CryoLayerID.ICE, regained] = model.config.snow.cryolayers.transition.ice
+        s.snow.layer_albedo[CryoLayerID.ICE, regained] = model.config.snow.albedo.ice
+
+        s.snow.ice_content[CryoLayerID.ICE, :] = new_ice_we
 
         model.snow.update_layers()
+        model.snow.update_properties()
 
         # TODO: when glacier advance is enabled, update the previous ice mass distributions here
 
-- 
2.43.0


From 583cc26b0861f6ea44bf33b5150690da4e361923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:34 +0000
Subject: [PATCH 35/41] fix: geometry update of glaciers without elevation
 range

---
 openamundsen/modules/glacier/glaciermodel.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index b9165d9..b07a0a5 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -170,9 +170,10 @@ def _ice_mass_change(elevs, total_mb, glacier_area, max_allowed_change):
        Hydrology and Earth System Sciences, 14(5), 815–829.
        https://doi.org/10.5194/hess-14-815-2010
     """
-    if total_mb < 0:
-        min_elev = elevs.min()
-        max_elev = elevs.max()
+    min_elev = elevs.min()
+    max_elev = elevs.max()
+
+    if total_mb < 0 and max_elev > min_elev:
         normalized_elevs = (max_elev - elevs) / (max_elev - min_elev)
         delta_h = _delta_h(normalized_elevs, glacier_area)
         fs = total_mb / delta_h.sum()
@@ -181,7 +182,8 @@ def _ice_mass_change(elevs, total_mb, glacier_area, max_allowed_change):
         # Restrict the surface lowering to max_allowed_change
         if max_allowed_change < 0:
             clippies = mass_change < max_allowed_change
-            if clippies.any() and (~clippies).sum() > 1:
+            # (distributing the surplus requires an elevation range)
+            if clippies.any() and np.unique(elevs[~clippies]).size > 1:
                 total_we_change = mass_change.sum()
                 mass_change[clippies] = max_allowed_change
                 we_change_diff = total_we_change - mass_change.sum()
@@ -190,7 +192,8 @@ def _ice_mass_change(elevs, total_mb, glacier_area, max_allowed_change):
                     elevs[~clippies],
                 )
     else:
-        # If the mass balance is positive, distribute the mass gain equally over all glacier pixels
+        # If the mass balance is positive (or the glacier surface is flat), distribute the mass change
+        # equally over all glacier pixels
         mass_change = total_mb / elevs.size
 
     return mass_change
-- 
2.43.0


From 35b1e28553b9fcd85520a8eb65be24c9b86d7ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:34 +0000
Subject: [PATCH 36/41] fix: expanding ROI pixel datasets failed without time
 steps and filled decoded integer fields with raw fill values

---
 openamundsen/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openamundsen/util.py b/openamundsen/util.py
index 7de9e5d..f7490d7 100644
--- a/openamundsen/util.py
+++ b/openamundsen/util.py
@@ -156,9 +156,12 @@ def convert_roi_pixel_dataset_to_grid(ds: xr.Dataset) -> xr.Dataset:
 
         pixel_axis = da.get_axis_num("pixel")
         values = np.moveaxis(da.values, pixel_axis, -1)
-        fill_value = da.encoding.get("_FillValue", da.attrs.get("_FillValue", np.nan))
+        if np.issubdtype(da.dtype, np.floating):
+            fill_value = np.nan  # missing values are already decoded
+        else:
+            fill_value = da.encoding.get("_FillValue", da.attrs.get("_FillValue", np.nan))
         full_values = np.full((*values.shape[:-1], nrows, ncols), fill_value, dtype=da.dtype)
-        full_values.reshape(*values.shape[:-1], -1)[..., pixel_idxs] = values
+        full_values.reshape(*values.shape[:-1], nrows * ncols)[..., pixel_idxs] = values
 
         target_order = (
             *range(pixel_axis),
-- 
2.43.0


From 0b001b8fb820947a2b182d617ebaec4a76288240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:55 +0000
Subject: [PATCH 37/41] fix: unsorted or duplicate output dates of gridded
 output fields

Write dates of a field are expected to be unique and ascending: duplicate dates left empty slots (and
broke the expansion of ROI pixel datasets), and unsorted dates led to wrong time bounds and file names of
aggregated fields.
---
 openamundsen/fileio/griddedoutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/fileio/griddedoutput.py b/openamundsen/fileio/griddedoutput.py
index 532fe45..fd3a8f3 100644
--- a/openamundsen/fileio/griddedoutput.py
+++ b/openamundsen/fileio/griddedoutput.py
@@ -102,7 +102,7 @@ class GriddedOutputManager:
                 agg = None
 
             if "dates" in field_cfg:
-                write_dates = pd.to_datetime(field_cfg["dates"])
+                write_dates = pd.to_datetime(field_cfg["dates"]).unique().sort_values()
             else:
                 write_dates = _freq_write_dates(model.dates, freq, agg is not None)
 
-- 
2.43.0


From d85443d223f5c087005b2c57bd3f88d42d3e1201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:55 +0000
Subject: [PATCH 38/41] fix: the live view overwrote state variables outside of
 the region of interest with NaN

The conversion to float returned the state array itself, so displaying e.g. the DEM changed the
shadows cast by pixels outside of the ROI.
---
 openamundsen/liveview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/liveview.py b/openamundsen/liveview.py
index c2fd5ca..889d831 100644
--- a/openamundsen/liveview.py
+++ b/openamundsen/liveview.py
@@ -154,7 +154,7 @@ class LiveView:
             data = self.state[field]
 
             # Hide non-ROI pixels (conversion to float is required for integer fields)
-            data = data.astype(float, copy=False)
+            data = data.astype(float)
             data[~self.roi] = np.nan
 
             # Perform downsampling
-- 
2.43.0


From 81f4e5b150c0660cc01556492660b55a6470ab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:55 +0000
Subject: [PATCH 39/41] fix: live view with a single field and column failed

plt.subplots() returns a single Axes object instead of an array in this case.
---
 openamundsen/liveview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/liveview.py b/openamundsen/liveview.py
index 889d831..8472979 100644
--- a/openamundsen/liveview.py
+++ b/openamundsen/liveview.py
@@ -50,7 +50,7 @@ class LiveView:
 
         num_cols = self.config.cols
         num_rows = int(np.ceil(len(self.config.variables) / num_cols))
-        fig, axarr = plt.subplots(ncols=num_cols, nrows=num_rows)
+        fig, axarr = plt.subplots(ncols=num_cols, nrows=num_rows, squeeze=False)
         fig.subplots_adjust(top=0.92, bottom=0.03, left=0.03, right=0.97)
 
         fields = []
-- 
2.43.0


From 7c359dbe3a49d1c09b718204984555a4140d0aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:55 +0000
Subject: [PATCH 40/41] fix: reject extended sky view factor files that belong
 to another grid

Only the dimensions were compared with the extended DEM, not position and resolution (as is done for all
other rasters).
---
 openamundsen/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index fed7378..b3f272e 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -740,11 +740,10 @@ class OpenAmundsen:
         if extended_svf_file.exists():
             ext_svf = fileio.read_raster_file(
                 extended_svf_file,
+                check_meta=ext_meta,
                 fill_value=np.nan,
                 dtype=float,
             )
-            if ext_svf.shape != ext_dem.shape:
-                raise errors.RasterFileError("Extended DEM and SVF have differing dimensions")
         else:
             logger.info("Calculating extended sky view factor")
             ext_svf = terrain.sky_view_factor(
-- 
2.43.0


From 35db77d0322cce784c6cdbc4d04069ac5fdca1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:19 +0000
Subject: [PATCH 41/41] fix: remove temporary files if writing them fails

---
 openamundsen/fileio/pointoutput.py |  9 +++++++--
 openamundsen/model.py              | 10 ++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/openamundsen/fileio/pointoutput.py b/openamundsen/fileio/pointoutput.py
index d98637e..883838f 100644
--- a/openamundsen/fileio/pointoutput.py
+++ b/openamundsen/fileio/pointoutput.py
@@ -427,8 +427,13 @@ class PointOutputManager:
                     # Do not overwrite the existing file in place, otherwise the already written
                     # data would be lost if writing is interrupted
                     tmp_filename = filename.with_suffix(".nc.tmp")
-                    ds_merge.to_netcdf(tmp_filename, engine=constants.NETCDF_ENGINE)
-                    os.replace(tmp_filename, filename)
+
+                    try:
+                        ds_merge.to_netcdf(tmp_filename, engine=constants.NETCDF_ENGINE)
+                        os.replace(tmp_filename, filename)
+                    except BaseException:
+                        tmp_filename.unlink(missing_ok=True)
+                        raise
             elif self.format == "csv":
                 ds_out = ds.copy()
 
diff --git a/openamundsen/model.py b/openamundsen/model.py
index b3f272e..1039cac 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -984,8 +984,14 @@ def _cache_svf(filename, svf, transform):
     and return the data as stored in the file, i.e., as it will be used by subsequent model runs.
     """
     tmp_filename = filename.with_name(f"{filename.name}.{os.getpid()}.tmp")
-    fileio.write_raster_file(tmp_filename, svf, transform, decimal_precision=3)
-    os.replace(tmp_filename, filename)
+
+    try:
+        fileio.write_raster_file(tmp_filename, svf, transform, decimal_precision=3)
+        os.replace(tmp_filename, filename)
+    except BaseException:
+        tmp_filename.unlink(missing_ok=True)
+        raise
+
     return fileio.read_raster_file(filename, fill_value=np.nan, dtype=float)
 
 
-- 
2.43.0

