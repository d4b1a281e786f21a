From 0618d5d819571fcd12a1a68aaf99bcda916389de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:21 +0000
Subject: [PATCH 01/40] fix: build the hourly index for daily records with
 absent days

The code used Index.to_datetime and pd.datetime, which pandas has removed,
so every record that skips days failed (e.g. the cascade model with several
seasons).
---
 melodist/util/util.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 7550078..2cbf4af 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -28,17 +28,7 @@ def hourly_index(daily_index, fill_gaps=False):
 
     # remove days that are not in the daily index:
     if not fill_gaps and len(index) > len(daily_index) * 24:
-        df = pd.DataFrame(index=index.date, data=dict(hour=index.hour, keep=True))
-        df.index = df.index.to_datetime()
-        dropdates = list(set(index.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        index = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h)
-                for y, m, d, h in zip(df.index.year, df.index.month, df.index.day, df.hour)
-            ]
-        )
+        index = index[index.normalize().isin(daily_index.normalize())]
 
     return index
 
-- 
2.43.0


From f35516ef2660a9be5db530e5b500acfae805b7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:22 +0000
Subject: [PATCH 02/40] fix: detect_gaps fails because Timedelta.delta no
 longer exists

---
 melodist/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 2cbf4af..fb6ca07 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -266,7 +266,7 @@ def detect_gaps(dataframe, timestep, print_all=False, print_max=5, verbose=True)
     for i in range(0, n):
         if i > 0:
             time_diff = dataframe.index[i] - dataframe.index[i - 1]
-            if time_diff.delta / 1e9 != timestep:
+            if time_diff.total_seconds() != timestep:
                 gcount += 1
                 if print_all or (msg_counter <= print_max - 1):
                     if verbose:
-- 
2.43.0


From d4325466cc420d10e1078c888adf32aee6b3b026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:22 +0000
Subject: [PATCH 03/40] fix: interpolation fails because Series.append no
 longer exists

---
 melodist/util/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index fb6ca07..fd42366 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -346,16 +346,16 @@ def prepare_interpolation_data(data_daily, column_hours):
     start_date = data_daily.index[0]
     end_date = data_daily.index[-1]
 
-    data = pd.Series()
+    series = []
 
     for column, hour in column_hours.items():
         index = pd.date_range(
             start=start_date.replace(hour=hour), end=end_date.replace(hour=hour), freq='D'
         )
         s = pd.Series(index=index, data=data_daily[column].values)
-        data = data.append(s)
+        series.append(s)
 
-    data = data.sort_index()
+    data = pd.concat(series).sort_index()
     data = data.reindex(hourly_index(data_daily.index))
 
     return data
-- 
2.43.0


From 5e5c1c2859f160bf0b4dda84ba450f35e3f8d155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:22 +0000
Subject: [PATCH 04/40] fix: master station method fails because
 Series.iteritems no longer exists

Also create the result as float instead of object series.
---
 melodist/precipitation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index fb8295f..dc979fe 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -386,10 +386,10 @@ def precip_master_station(precip_daily, master_precip_hourly, zerodiv):
         distribution
     """
 
-    precip_hourly = pd.Series(index=melodist.util.hourly_index(precip_daily.index))
+    precip_hourly = pd.Series(index=melodist.util.hourly_index(precip_daily.index), dtype=float)
 
     # set some parameters for cosine function
-    for index_d, precip in precip_daily.iteritems():
+    for index_d, precip in precip_daily.items():
         # get hourly data of the day
         index = index_d.date().isoformat()
         precip_h = master_precip_hourly[index]
-- 
2.43.0


From dcaf1d627bd5dc9a7b1828173423db8e9db9677a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:22 +0000
Subject: [PATCH 05/40] fix: 5 min cascade for daily records with absent days

The index construction used the removed pd.datetime. Resampling also filled
absent days with zero rain.
---
 melodist/precipitation.py | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index dc979fe..91f330a 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -309,6 +309,10 @@ def disagg_prec_cascade(precip_daily, cascade_options, hourly=True, level=9, shi
             index=sub_level_index(precip_daily.index, level=level, fill_gaps=False), data=vdn_out
         )
         disagg_precip = precip_sn.resample('5min').sum()
+        # remove days that are not in the daily index:
+        disagg_precip = disagg_precip[
+            disagg_precip.index.normalize().isin(precip_daily.index.normalize())
+        ]
 
     # set missing days to nan again:
     for date in missing_days:
@@ -712,27 +716,9 @@ def sub_level_index(daily_index, level=9, fill_gaps=False):
     # remove days that are not in the daily index:
     time_steps = 2**level
     if not fill_gaps and len(sublevel_index) > len(daily_index) * time_steps:
-        df = pd.DataFrame(
-            index=sublevel_index.date,
-            data=dict(
-                hour=sublevel_index.hour,
-                minute=sublevel_index.minute,
-                second=sublevel_index.second,
-                keep=True,
-            ),
-        )
-        df.index = pd.to_datetime(df.index)
-        dropdates = list(set(sublevel_index.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        sublevel_index = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h, minute, second)
-                for y, m, d, h, minute, second in zip(
-                    df.index.year, df.index.month, df.index.day, df.hour, df.minute, df.second
-                )
-            ]
-        )
+        sublevel_index = sublevel_index[
+            sublevel_index.normalize().isin(daily_index.normalize())
+        ]
 
     return sublevel_index
 
-- 
2.43.0


From 8ef3dbad85c15beacdb3aab0841b0acca6f3808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:22 +0000
Subject: [PATCH 06/40] fix: fmin_index uses a frequency alias and pd.datetime
 that pandas removed

---
 melodist/precipitation.py | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 91f330a..27dccfd 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -727,27 +727,10 @@ def fmin_index(daily_index, fill_gaps=False):
     fminindex = pd.date_range(
         start=daily_index.min(),
         end=daily_index.max().replace(hour=23, minute=59, second=59),
-        freq='300000L',
+        freq='5min',
     )
     # remove days that are not in the daily index:
     if not fill_gaps and len(fminindex) > len(daily_index) * 288:
-        df = pd.DataFrame(
-            index=fminindex.date,
-            data=dict(
-                hour=fminindex.hour, minute=fminindex.minute, second=fminindex.second, keep=True
-            ),
-        )
-        df.index = pd.to_datetime(df.index)  # got a warning at firsr: "to_datetime"is depreciated
-        dropdates = list(set(fminindex.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        fminindex = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h, minute, second)
-                for y, m, d, h, minute, second in zip(
-                    df.index.year, df.index.month, df.index.day, df.hour, df.minute, df.second
-                )
-            ]
-        )
+        fminindex = fminindex[fminindex.normalize().isin(daily_index.normalize())]
 
     return fminindex
-- 
2.43.0


From 8dc11d6d8ecb5f06cc9ae342882c69cd83717afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:22 +0000
Subject: [PATCH 07/40] fix: read_smet fails because the index name cannot be
 deleted

---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 0fe8ba3..70d53ae 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -93,7 +93,7 @@ def read_smet(filename, mode):
 
     data = data * multiplier
 
-    del data.index.name
+    data.index.name = None
 
     # rename columns
     if mode == "d":
-- 
2.43.0


From cfc1242c3d57dbd267a24e4879cd015769a946d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:22 +0000
Subject: [PATCH 08/40] fix: write_smet exchanges minimum and maximum
 temperature

---
 melodist/data_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 70d53ae..41e72c4 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -244,8 +244,8 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
     # daily data
     dict_d = {
         'tmean': 'TA',
-        'tmin': 'TMAX',  # no spec
-        'tmax': 'TMIN',  # no spec
+        'tmin': 'TMIN',  # no spec
+        'tmax': 'TMAX',  # no spec
         'precip': 'PSUM',
         'glob': 'ISWR',  # no spec
         'hum': 'RH',
-- 
2.43.0


From 98b4762fffaaecbd28a61fedf3ad353ba902b45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:22 +0000
Subject: [PATCH 09/40] fix: write_smet does not leave out columns without data

The sum of an all-nan column is 0 in pandas, so no column was ever dropped.
---
 melodist/data_io.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 41e72c4..02172ef 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -262,12 +262,8 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
         data = data.rename(columns=dict_h)
 
     if check_nan:
-        # get all columns with data
-        datas_in = data.sum().dropna().to_frame().T
-        # get colums with no datas
-        drop = [data_nan for data_nan in data.columns if data_nan not in datas_in]
-        # delete columns
-        data = data.drop(drop, axis=1)
+        # delete columns with no data
+        data = data.dropna(axis=1, how='all')
 
     with open(filename, 'w') as f:
         # preparing data
-- 
2.43.0


From 5498794bc01fe2f46fa2020e4c44571ddb1002dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:22 +0000
Subject: [PATCH 10/40] fix: read_smet truncates header values that contain an
 equals sign

---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 02172ef..027bccd 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -72,7 +72,7 @@ def read_smet(filename, mode):
                 break
 
             if in_header:
-                line_split = line.split('=')
+                line_split = line.split('=', 1)
                 k = line_split[0].strip()
                 v = line_split[1].strip()
                 header[k] = v
-- 
2.43.0


From 16ca0c5638ec36bb594fd4dfc7d15b6712af1ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:46 +0000
Subject: [PATCH 11/40] fix: read_dwd drops the last record with
 skip_last=False

---
 melodist/data_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 027bccd..e8d0b50 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -150,9 +150,11 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
         }
 
         # ---read data------------------
-        if skip_last is not None:
+        if skip_last:
             num_lines = sum(1 for line in open(filename))
             skip_last = [num_lines - 1]
+        else:
+            skip_last = None
 
         # hourly data must be parsed by custom definition
         if mode == "d":
-- 
2.43.0


From 54446d440ca6e112ab438272bd04312b11116dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:46 +0000
Subject: [PATCH 12/40] fix: read_dwd cannot read hourly files because
 date_parser no longer exists

---
 melodist/data_io.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index e8d0b50..fc1c659 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -169,24 +169,14 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
 
         # hourly data must be parsed by custom definition
         if mode == "h":
-
-            def date_parser(date_time):
-                hour = date_time[8:10]
-                day = date_time[6:8]
-                month = date_time[4:6]
-                year = date_time[0:4]
-                minute = '00'
-                sec = '00'
-                return pd.Timestamp('%s-%s-%s %s:%s:%s' % (year, month, day, hour, minute, sec))
-
             data = pd.read_csv(
                 filename,
                 sep=';',
                 na_values='-999',
                 index_col=' MESS_DATUM',
-                date_parser=date_parser,
                 skiprows=skip_last,
             )
+            data.index = pd.to_datetime(data.index.astype(str), format='%Y%m%d%H')
 
         # remove whitespace from header columns
         data.rename(columns=lambda x: x.strip(), inplace=True)
-- 
2.43.0


From f95c8c2be307c1d5bce473e09d758da41631df8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:46 +0000
Subject: [PATCH 13/40] fix: KNMI files cannot be read because date_parser and
 pd.datetime no longer exist

---
 melodist/data_io.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index fc1c659..6bb1a85 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -308,18 +308,16 @@ def read_single_knmi_file(filename):
     """
     hourly_data_obs_raw = pd.read_csv(
         filename,
-        parse_dates=[['YYYYMMDD', 'HH']],
-        date_parser=lambda yyyymmdd, hh: pd.datetime(
-            int(str(yyyymmdd)[0:4]), int(str(yyyymmdd)[4:6]), int(str(yyyymmdd)[6:8]), int(hh) - 1
-        ),
         skiprows=31,
         skipinitialspace=True,
         na_values='',
-        keep_date_col=True,
     )
 
-    hourly_data_obs_raw.index = hourly_data_obs_raw['YYYYMMDD_HH']
-    hourly_data_obs_raw.index = hourly_data_obs_raw.index + pd.Timedelta(hours=1)
+    hourly_data_obs_raw.index = pd.DatetimeIndex(
+        pd.to_datetime(hourly_data_obs_raw['YYYYMMDD'].astype(str), format='%Y%m%d')
+        + pd.to_timedelta(hourly_data_obs_raw['HH'], unit='h'),
+        name='YYYYMMDD_HH',
+    )
 
     columns_hourly = ['temp', 'precip', 'glob', 'hum', 'wind', 'ssd']
 
-- 
2.43.0


From 055ad4672728e3e0cc626b23c1003da433c6fa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:46 +0000
Subject: [PATCH 14/40] fix: read_knmi_dataset finds no files without a
 trailing slash

Also read the files in a fixed order instead of directory order.
---
 melodist/data_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 6bb1a85..9cf8d75 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -20,6 +20,7 @@
 ################################################################################
 import collections
 import glob
+import os
 
 import pandas as pd
 
@@ -351,8 +352,8 @@ def read_knmi_dataset(directory):
     Returns:
         pandas data frame including time series
     """
-    filemask = '%s*.txt' % directory
-    filelist = glob.glob(filemask)
+    filemask = os.path.join(directory, '*.txt')
+    filelist = sorted(glob.glob(filemask))
 
     columns_hourly = ['temp', 'precip', 'glob', 'hum', 'wind', 'ssd']
     ts = pd.DataFrame(columns=columns_hourly)
-- 
2.43.0


From a01822238627e823e0312b01197ce5fc255cc489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:46 +0000
Subject: [PATCH 15/40] fix: sine temperature disaggregation fails for stations
 with polar night

Boolean Series.diff yields nan for the first day, which can no longer be used
as a mask, and Series.append no longer exists.
---
 melodist/temperature.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index a5ad2b8..306221b 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -206,9 +206,9 @@ def disaggregate_temperature(
             temp_disagg[getting_colders_max_loc] = locdf_day.min_val_cur[getting_colders].values
 
             temp_polars = temp_disagg.loc[polars_index_hourly].copy()
-            transition_days = polars[polars.diff()].astype(
-                int
-            )
+            transition_days = polars[
+                polars.ne(polars.shift(fill_value=polars.iloc[0]))
+            ].astype(int)
             # (0 where transition from polar to "normal" mode, 1 where transition from normal to
             # polar)
 
@@ -219,8 +219,8 @@ def disaggregate_temperature(
                 )
                 add_days = polar_to_normal_days.union(normal_to_polar_days)
 
-                temp_polars = temp_polars.append(
-                    temp_disagg[melodist.util.hourly_index(add_days)]
+                temp_polars = pd.concat(
+                    [temp_polars, temp_disagg[melodist.util.hourly_index(add_days)]]
                 ).sort_index()
 
                 for day in polar_to_normal_days:
-- 
2.43.0


From 3e5ee504bbe1dadb8eab58967ec09bb3060effc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:46 +0000
Subject: [PATCH 16/40] fix: monthly Bristow-Campbell parameters are not
 calibrated

The month iterator was already used up by the Angstroem calibration.
---
 melodist/stationstatistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index 9e426c0..714ed9b 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -150,7 +150,7 @@ class StationStatistics(object):
             elif how == 'seasonal':
                 month_ranges = [[3, 4, 5], [6, 7, 8], [9, 10, 11], [12, 1, 2]]
             elif how == 'monthly':
-                month_ranges = zip(np.arange(12) + 1)
+                month_ranges = list(zip(np.arange(12) + 1))
 
             def myisin(s, v):
                 return pd.Series(s).isin(v).values
-- 
2.43.0


From 32d0626dc4154a11c4601f72c1d294511591663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:46 +0000
Subject: [PATCH 17/40] fix: missing values distort the cascade statistics of
 the first season

Missing values were set to zero only after the first season had been selected,
and in the data frame of the caller.
---
 melodist/precipitation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 27dccfd..2d1c656 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -661,10 +661,12 @@ def build_casc(ObsData, hourly=True, level=9, months=None, avg_stats=True, perce
     if months is None:
         months = [np.arange(12) + 1]
 
+    ObsData = ObsData.copy()
+    ObsData['precip'] = ObsData['precip'].fillna(0)
+
     # Parameter estimation for each season
     for cur_months in months:
         vdn = seasonal_subset(ObsData, cur_months)
-        ObsData['precip'] = ObsData['precip'].fillna(0)
 
         casc_opt = melodist.cascade.CascadeStatistics()
         casc_opt.percentile = percentile
-- 
2.43.0


From 5eb76393a9b2796aa2ec83aebd04da7296d6335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:46 +0000
Subject: [PATCH 18/40] fix: potential radiation is nan for some sun positions

This affects the sun in the zenith (division by zero) and due east or west
(sine of the azimuth slightly above 1 because of rounding, e.g. at the poles).
---
 melodist/radiation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index 325808c..a41df31 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -166,7 +166,7 @@ def potential_radiation(
     cos_solar_zenith = np.sin(solar_decline) * np.sin(np.deg2rad(lat)) + np.cos(
         solar_decline
     ) * np.cos(np.deg2rad(lat)) * np.cos(hour_angle)
-    cos_solar_zenith = cos_solar_zenith.clip(min=0)
+    cos_solar_zenith = cos_solar_zenith.clip(min=0, max=1)
     solar_zenith_angle = np.arccos(cos_solar_zenith)
 
     # compute transmissivities for direct and diffus radiation using cloud fraction
@@ -184,7 +184,11 @@ def potential_radiation(
     )
     solar_constant_times_radius_ratio = solar_constant * radius_ratio
 
-    mu = np.arcsin(np.cos(solar_decline) * np.sin(hour_angle) / np.sin(solar_zenith_angle))
+    with np.errstate(divide='ignore', invalid='ignore'):
+        sin_mu = np.cos(solar_decline) * np.sin(hour_angle) / np.sin(solar_zenith_angle)
+
+    # the azimuth is undefined if the sun is in the zenith
+    mu = np.arcsin(np.nan_to_num(sin_mu).clip(min=-1, max=1))
     cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
         solar_zenith_angle
     ) * np.cos(mu - terrain_slope_azimuth)
-- 
2.43.0


From 0446342208236e7372d71f8ef40d96ec693fd515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:46 +0000
Subject: [PATCH 19/40] fix: disaggregated radiation is nan instead of zero in
 polar night

---
 melodist/radiation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index a41df31..230ed07 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -96,6 +96,7 @@ def disaggregate_radiation(
     )  # hourly values (replicate daily mean value for each hour)
     pot_rad_daily_equal = pot_rad_daily.reindex(pot_rad.index, method='ffill')
     glob_disagg = pot_rad / pot_rad_daily_equal * globalrad_equal
+    glob_disagg[globalrad_equal == 0] = 0.0  # also if there is no potential radiation
     glob_disagg[glob_disagg < 1e-2] = 0.0
 
     return glob_disagg
-- 
2.43.0


From 997521cf32981c9c015bbc405b2e5b968ef23cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:47 +0000
Subject: [PATCH 20/40] fix: get_shift_by_data fails for days without
 observations

---
 melodist/temperature.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index 306221b..74553ff 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -277,6 +277,7 @@ def get_shift_by_data(temp_hourly, lon, lat, time_zone):
     daily_index = temp_hourly.resample('D').mean().index
     sun_times = melodist.util.get_sun_times(daily_index, lon, lat, time_zone)
 
+    temp_hourly = temp_hourly.dropna()
     idxmax = temp_hourly.groupby(temp_hourly.index.date).idxmax()
     idxmax.index = pd.to_datetime(idxmax.index)
     max_temp_hour_obs = idxmax.dropna().apply(lambda d: d.hour)
-- 
2.43.0


From e49d5107b9a4a2bc776f9636faf0dc4bf5f73b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:47 +0000
Subject: [PATCH 21/40] fix: from_json fails for statistics that do not cover
 all months

---
 melodist/stationstatistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index 714ed9b..1cf4b9b 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -263,8 +263,8 @@ class StationStatistics(object):
                     typ='frame',
                 )
                 .sort_index()
-            )[np.arange(1, 12 + 1)]
-            stats.temp.mean_course = mc.sort_index()[np.arange(1, 12 + 1)]
+            )
+            stats.temp.mean_course = mc.sort_index(axis=1)
 
         if stats.hum.month_hour_precip_mean is not None:
             mhpm = pd.read_json(
@@ -283,6 +283,6 @@ class StationStatistics(object):
                 ).sort_index()
 
         if stats.glob.mean_course is not None:
-            stats.glob.mean_course = stats.glob.mean_course[np.arange(1, 12 + 1)]
+            stats.glob.mean_course = stats.glob.mean_course.sort_index(axis=1)
 
         return stats
-- 
2.43.0


From 8d08e15f7230aaa6f9cb53bada61aab5300cbee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:47 +0000
Subject: [PATCH 22/40] fix: drop_incomplete_days keeps the first record of a
 single incomplete day

---
 melodist/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index fd42366..4a1e8c1 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -331,7 +331,7 @@ def drop_incomplete_days(dataframe, shift=0):
             dropped += 1
 
     # drop tailing lines if required
-    for i in range(n - 1, 0, -1):
+    for i in range(n - 1, -1, -1):
         if dataframe.index.hour[i] == last and dataframe.index.minute[i] == 0:
             break
         else:
-- 
2.43.0


From baf355855ddde66360d72813278a34088e146818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:52 +0000
Subject: [PATCH 23/40] fix: sine_min_max temperature disaggregation requires
 the daily mean column

The method only uses daily minimum and maximum temperature.
---
 melodist/temperature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index 74553ff..287b4f1 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -111,7 +111,8 @@ def disaggregate_temperature(
 
         locdf.min_val_cur = data_daily.tmin
         locdf.max_val_cur = data_daily.tmax
-        locdf.mean_val_cur = data_daily.temp
+        if method == 'sine_mean':
+            locdf.mean_val_cur = data_daily.temp
         locdf.min_val_next = data_daily.tmin.shift(-1, 'D')
         locdf.max_val_next = data_daily.tmax.shift(-1, 'D')
         locdf.loc[locdf.index[-1], 'min_val_next'] = locdf.min_val_cur.iloc[-1]
-- 
2.43.0


From a625ad929618ab7895d4d5432de66e50a92ed34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:52 +0000
Subject: [PATCH 24/40] fix: sun times are not updated when the station
 location is changed

Setting the location or time zone after the daily data left the sun times
unset or at the old location, while radiation used the new one.
---
 melodist/station.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/melodist/station.py b/melodist/station.py
index 297bb9a..da1f658 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -116,6 +116,7 @@ class Station(object):
     def lon(self, lon):
         self._lon = lon
         self.statistics._lon = lon
+        self._update_sun_times()
 
     @property
     def lat(self):
@@ -128,6 +129,7 @@ class Station(object):
     def lat(self, lat):
         self._lat = lat
         self.statistics._lat = lat
+        self._update_sun_times()
 
     @property
     def timezone(self):
@@ -143,6 +145,7 @@ class Station(object):
     def timezone(self, timezone):
         self._timezone = timezone
         self.statistics._timezone = timezone
+        self._update_sun_times()
 
     @property
     def statistics(self):
@@ -178,6 +181,10 @@ class Station(object):
             self.data_daily.index, self.lon, self.lat, self.timezone
         )
 
+    def _update_sun_times(self):
+        if self.data_daily is not None and None not in (self.lon, self.lat, self.timezone):
+            self.calc_sun_times()
+
     def disaggregate_wind(self, method='equal'):
         """
         Disaggregate wind speed.
-- 
2.43.0


From c5e134373834bab1307b7a2e2e37e9f63b0a6bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:53 +0000
Subject: [PATCH 25/40] fix: sloped terrain receives direct radiation at night

The solar zenith angle is limited to 90 degrees, so slopes facing the azimuth
of the sun were lit with the sun below the horizon.
---
 melodist/radiation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index 230ed07..a09ea54 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -200,6 +200,7 @@ def potential_radiation(
         solar_constant_times_radius_ratio * transmissivity_diffuse * cos_solar_zenith
     )
     direct_radiation = direct_radiation.clip(min=0)
+    direct_radiation[cos_solar_zenith <= 0] = 0.0  # sun below the horizon
 
     df = pd.DataFrame(index=dates, data=dict(direct=direct_radiation, diffuse=diffuse_radiation))
 
-- 
2.43.0


From cc200f83d2ef8cc579f0cfba8c70e4d569cceaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:55 +0000
Subject: [PATCH 26/40] fix: station keeps a daily record with regularly
 missing days

A daily record with a set frequency other than one day (e.g. every second day
or business days) was not completed to all calendar days, unlike records
without a frequency.
---
 melodist/station.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/station.py b/melodist/station.py
index da1f658..33cbd27 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -86,7 +86,7 @@ class Station(object):
         assert df.index.resolution == 'day'
         assert df.index.is_monotonic_increasing
 
-        if df.index.freq is None:  # likely some days are missing
+        if df.index.freqstr != 'D':  # likely some days are missing
             df = df.reindex(pd.date_range(start=df.index[0], end=df.index[-1], freq='D'))
 
         for var in 'tmin', 'tmax', 'tmean':
-- 
2.43.0


From 8407ee834621e8516bd2f01eecbd8cd2bbea2a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:55 +0000
Subject: [PATCH 27/40] fix: missing days in polar night are partly filled by
 interpolation

The linear interpolation of polar-night temperatures continued for up to 23
hours into a day without minimum and maximum temperature. Such days are left
missing now, as outside polar night.
---
 melodist/temperature.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index 287b4f1..61746d7 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -239,6 +239,10 @@ def disaggregate_temperature(
 
             temp_interp = temp_polars.interpolate(method='linear', limit=23)
             temp_disagg[temp_interp.index] = temp_interp
+
+            # the interpolation must not fill days without data
+            missing_days = avg_cur.index[avg_cur.isnull()]
+            temp_disagg[temp_disagg.index.normalize().isin(missing_days)] = np.nan
     elif method == 'mean_course_min_max':
         data_daily_as_hourly = data_daily.reindex(temp_disagg.index, method='ffill', limit=23)
 
-- 
2.43.0


From aba6903e9a0fde179c80374900de3b561606a2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:07 +0000
Subject: [PATCH 28/40] fix: daily maximum temperature is missed if the sun
 rises before midnight

The time of sunrise is wrapped to 0-24 h. Close to and under midnight sun the
minimum was therefore assumed at the end of the day, after the maximum, and the
maximum hour received the maximum of the day before. Midnight is now used for
the time of the minimum in this case.
---
 melodist/temperature.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index 61746d7..b6523f6 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -84,19 +84,23 @@ def disaggregate_temperature(
             ],
         )
 
+        if min_max_time != 'fix':
+            # use midnight if the sun already rises before midnight (sunrise is wrapped to 0-24 h)
+            sunrise = sun_times.sunrise.mask(sun_times.sunrise > sun_times.sunnoon, 0.0)
+
         if min_max_time == 'fix':
             # take fixed location for minimum and maximum
             locdf.min_loc = 7
             locdf.max_loc = 14
         elif min_max_time == 'sun_loc':
             # take location for minimum and maximum by sunrise / sunnoon + 2h
-            locdf.min_loc = sun_times.sunrise.round()  # sun rise round to full hour
+            locdf.min_loc = sunrise.round()  # sun rise round to full hour
             locdf.max_loc = (
                 sun_times.sunnoon.round() + default_shift_hours
             )  # sun noon round to full hour + fix 2h
         elif min_max_time == 'sun_loc_shift':
             # take location for minimum and maximum by sunrise / sunnoon + monthly delta
-            locdf.min_loc = sun_times.sunrise.round()  # sun rise round to full hour
+            locdf.min_loc = sunrise.round()  # sun rise round to full hour
             locdf.max_loc = (
                 sun_times.sunnoon + max_delta[locdf.index.month].values
             ).round()  # sun noon + shift derived from observed hourly data, round to full hour
-- 
2.43.0


From e044d133fb4de9e774f6cc5e17d414840008aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:01 +0000
Subject: [PATCH 29/40] fix: padded missing values in DWD files are read as
 -999

---
 melodist/data_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 9cf8d75..ab6673d 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -163,7 +163,8 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
                 filename,
                 sep=';',
                 na_values='-999',
-                index_col=' MESS_DATUM',
+                index_col='MESS_DATUM',
+                skipinitialspace=True,
                 parse_dates=True,
                 skiprows=skip_last,
             )
@@ -174,7 +175,8 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
                 filename,
                 sep=';',
                 na_values='-999',
-                index_col=' MESS_DATUM',
+                index_col='MESS_DATUM',
+                skipinitialspace=True,
                 skiprows=skip_last,
             )
             data.index = pd.to_datetime(data.index.astype(str), format='%Y%m%d%H')
-- 
2.43.0


From 520418bd83d4f467705bc9aebd665188b319507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:27 +0000
Subject: [PATCH 30/40] fix: daily data cannot be set while longitude or
 latitude are unknown

---
 melodist/station.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/melodist/station.py b/melodist/station.py
index 33cbd27..d3c0e25 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -102,8 +102,8 @@ class Station(object):
         df = pd.DataFrame(index=index, columns=Station._columns_hourly, dtype=float)
         self._data_disagg = df
 
-        if self.timezone is not None:
-            self.calc_sun_times()
+        self.sun_times = None
+        self._update_sun_times()
 
     @property
     def lon(self):
-- 
2.43.0


From 153d9e314ba3154afa6b967d3a10a64d7e56f065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:56 +0000
Subject: [PATCH 31/40] fix: linear dew point variation skips absent days to
 find the next day's value

---
 melodist/humidity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/humidity.py b/melodist/humidity.py
index a95dfdb..2884079 100644
--- a/melodist/humidity.py
+++ b/melodist/humidity.py
@@ -77,7 +77,7 @@ def disaggregate_humidity(
                 (temp.index.hour + 1) * np.pi / kr - 3.0 * np.pi / 4.0
             )  # eq. (21) from Debele et al. (2007)
 
-            tdew_nextday = tdew.shift(-24)
+            tdew_nextday = tdew.shift(-24, 'h').reindex(tdew.index)
             tdew_nextday.iloc[-24:] = tdew.iloc[-24:]  # copy the last day
 
             # eq. (20) from Debele et al. (2007):
-- 
2.43.0


From 8dde45bfa3631c537e08baf2a1f25d788b1da4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:56 +0000
Subject: [PATCH 32/40] fix: preserving the daily mean humidity adds absent
 days to the result

---
 melodist/humidity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/melodist/humidity.py b/melodist/humidity.py
index 2884079..46e7354 100644
--- a/melodist/humidity.py
+++ b/melodist/humidity.py
@@ -111,6 +111,7 @@ def disaggregate_humidity(
 
     if preserve_daily_mean:
         daily_mean_df = pd.DataFrame(
+            index=data_daily.index,
             data=dict(obs=data_daily.hum, disagg=hum_disagg.resample('D').mean())
         )
         bias = melodist.util.distribute_equally(daily_mean_df.disagg - daily_mean_df.obs)
-- 
2.43.0


From bf0f0d78a664745e65224d04531f5b552e9b2d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:23 +0000
Subject: [PATCH 33/40] fix: equal distribution of precipitation fails for the
 documented series argument

disagg_prec documents its daily data as a series for every method.
The equal method only worked with a data frame; that still works.
---
 melodist/precipitation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 2d1c656..acc9b1b 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -60,7 +60,9 @@ def disagg_prec(
     if method not in ('equal', 'cascade', 'masterstation'):
         raise ValueError('Invalid option')
 
-    if method == 'equal':
+    if method == 'equal' and isinstance(dailyData, pd.Series):
+        precip_disagg = melodist.distribute_equally(dailyData, divide=True)
+    elif method == 'equal':
         precip_disagg = melodist.distribute_equally(dailyData.precip, divide=True)
     elif method == 'masterstation':
         precip_disagg = precip_master_station(dailyData, hourly_data_obs, zerodiv)
-- 
2.43.0


From c2c690729f6dc0cd8184f098d6ca2d8f8355b9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:19 +0000
Subject: [PATCH 34/40] fix: shifting cascade precipitation mixes up the ends
 of seasons

Each season was shifted on its own, so that rain at the end of a season
was moved to the next occurrence of that season, months later, and the
first hours of the next season were left missing.
---
 melodist/station.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/melodist/station.py b/melodist/station.py
index d3c0e25..386ef89 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -349,10 +349,12 @@ class Station(object):
                         precip_daily,
                         method=method,
                         cascade_options=stats,
-                        shift=shift,
                         zerodiv=zerodiv,
                     )
                     precip_disagg.loc[data.index] = data
+
+            # shift the complete series, not each season on its own
+            precip_disagg = precip_disagg.shift(shift)
         elif method == 'masterstation':
             precip_disagg = melodist.precip_master_station(
                 self.data_daily.precip, master_precip, zerodiv
-- 
2.43.0


From c6d745fc05a382a44d23f3193694308a4748d2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:19 +0000
Subject: [PATCH 35/40] fix: shifting cascade precipitation moves rain across
 absent days

The series was shifted by position. In a record that skips days, rain
of the last hours before a gap was moved to the day after it.
---
 melodist/precipitation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index acc9b1b..d4ca0cb 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -322,7 +322,9 @@ def disagg_prec_cascade(precip_daily, cascade_options, hourly=True, level=9, shi
 
     # shifts the data by shift steps (fills with nan/cuts edge data )
     if shift != 0:
-        disagg_precip = disagg_precip.shift(shift)  # ? freq='1U')
+        # in time, so that nothing is moved across days that are not in the daily index
+        freq = 'h' if hourly else '5min'
+        disagg_precip = disagg_precip.shift(shift, freq).reindex(disagg_precip.index)
 
     # return time series
     if test:
-- 
2.43.0


From a4993d03e2d331dd7844422cd63220062cf98368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:23 +0000
Subject: [PATCH 36/40] fix: missing values in SMET files with a nodata value
 other than -999 are read as data

---
 melodist/data_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index ab6673d..6b8f58b 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -85,7 +85,7 @@ def read_smet(filename, mode):
     data = pd.read_table(
         filename,
         sep=r'\s+',
-        na_values=[-999],
+        na_values=[float(header.get('nodata', -999))],
         skiprows=data_start,
         names=columns,
         index_col='timestamp',
@@ -277,6 +277,7 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
         # metadatas update
         metadata['fields'] = ' '.join(data.columns)
         metadata["units_multiplier"] = len(metadata['fields'].split()) * "1 "
+        metadata['nodata'] = nodata_value
 
         # writing data
         # metadata
-- 
2.43.0


From 7ae11d7bb2c0308f040b35c11da0658cae345033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:23 +0000
Subject: [PATCH 37/40] fix: SMET unit offsets are ignored and files without
 unit multipliers cannot be read

---
 melodist/data_io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 6b8f58b..6ca5572 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -80,7 +80,9 @@ def read_smet(filename, mode):
 
     # get column names
     columns = header['fields'].split()
-    multiplier = [float(x) for x in header['units_multiplier'].split()][1:]
+    # multipliers and offsets are optional
+    multiplier = [float(x) for x in header.get('units_multiplier', '').split()][1:] or 1
+    offset = [float(x) for x in header.get('units_offset', '').split()][1:] or 0
 
     data = pd.read_table(
         filename,
@@ -92,7 +94,7 @@ def read_smet(filename, mode):
         parse_dates=True,
     )
 
-    data = data * multiplier
+    data = data * multiplier + offset
 
     data.index.name = None
 
@@ -278,6 +280,8 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
         metadata['fields'] = ' '.join(data.columns)
         metadata["units_multiplier"] = len(metadata['fields'].split()) * "1 "
         metadata['nodata'] = nodata_value
+        if 'units_offset' in metadata:
+            metadata['units_offset'] = len(metadata['fields'].split()) * "0 "
 
         # writing data
         # metadata
-- 
2.43.0


From 7eb22d0ae122629a21447f6dafcb46b73ccbbe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:32 +0000
Subject: [PATCH 38/40] fix: master station precipitation fails if hours are
 absent in the record of the master

---
 melodist/precipitation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index d4ca0cb..307822e 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -401,6 +401,8 @@ def precip_master_station(precip_daily, master_precip_hourly, zerodiv):
         # get hourly data of the day
         index = index_d.date().isoformat()
         precip_h = master_precip_hourly[index]
+        if len(precip_h) < 24:  # hours that are absent in the record of the master
+            precip_h = precip_h.reindex(precip_hourly[index].index)
 
         # calc rel values and multiply by daily sums
         # check for zero division
-- 
2.43.0


From 53220a9068d43b19137fc2d42c2dc5b06594ee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:32 +0000
Subject: [PATCH 39/40] fix: cascade calibration fails for a season without
 rain

---
 melodist/precipitation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 307822e..fe41f8a 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -460,6 +460,10 @@ def aggregate_precipitation(vec_data, hourly=True, percentile=50):
     # length of new time series
     n_out = len(vdn)
 
+    if not (vdn.precip > 0.0).any():  # no rain, default values will be returned
+        cascade_opt.fill_with_sample_data()
+        return cascade_opt, vdn
+
     # series of box types:
     vbtype = np.zeros((n_out,), dtype=int)
 
-- 
2.43.0


From f7b6d5cf554e9269c788d905d57c5300f03a5ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:18:27 +0000
Subject: [PATCH 40/40] fix: traces of sunshine in KNMI files are read as
 negative durations

---
 melodist/data_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 6ca5572..a712180 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -344,6 +344,8 @@ def read_single_knmi_file(filename):
     # remove negative values
     negative_values = hourly_data_obs['precip'] < 0.0
     hourly_data_obs.loc[negative_values, 'precip'] = 0.0
+    # less than 0.05 h of sunshine are marked by -1, too
+    hourly_data_obs.loc[hourly_data_obs['ssd'] < 0.0, 'ssd'] = 0.0
     return hourly_data_obs
 
 
-- 
2.43.0

