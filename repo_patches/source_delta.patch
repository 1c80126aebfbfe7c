From cf1d3bbf2407c7398c61bbee82db8a6fd4cfdec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 001/106] fix: TSCDataFrame.delta_time for datetime, degenerate
 and unordered time series

---
 datafold/pcfold/timeseries/collection.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index a410e66..8505b3b 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1051,6 +1051,9 @@ class TSCDataFrame(pd.DataFrame):
             else:
                 n_timeseries = self.n_timeseries
 
+                # IDs in the order in which the time series are stored (not sorted)
+                stored_ids = id_indexer[::n_timesteps]
+
                 # faster evaluation if all time series have the same number of time steps
                 idx_mask = np.ones(n_timesteps, dtype=bool)
                 idx_mask[-1] = 0
@@ -1062,7 +1065,7 @@ class TSCDataFrame(pd.DataFrame):
 
                 if diff_times.shape[1] == 1:
                     # special case when n_timesteps==2
-                    dt_result_series[:] = diff_times.flatten()
+                    dt_result_series.loc[stored_ids] = diff_times.flatten()
                 else:
                     # need to check if all values are the same
                     if diff_times.dtype == float:
@@ -1086,13 +1089,16 @@ class TSCDataFrame(pd.DataFrame):
                             else:
                                 result[~equal_dt] = np.timedelta64("NaT")
 
-                    dt_result_series[:] = result.flatten()
+                    dt_result_series.loc[stored_ids] = result.flatten()
         else:
             for timeseries_id in self.ids:
                 # TODO: this can be potentially faster by using views on the diff_times
                 #  instead of using get indexer for
                 _id_dt = diff_times[id_indexer.get_indexer_for([timeseries_id])[:-1]]
 
+                if len(_id_dt) == 0:
+                    continue  # no time delta in a degenerate time series
+
                 if is_timedelta64_dtype(_id_dt) or _id_dt.dtype == int:
                     _is_unique_dt = len(np.unique(np.asarray(_id_dt))) == 1
                 else:
@@ -1105,7 +1111,7 @@ class TSCDataFrame(pd.DataFrame):
 
         if not np.isnan(dt_result_series).all():
             if is_timedelta64_dtype(dt_result_series) or dt_result_series.dtype == int:
-                is_global_unique = len(np.unique(dt_result_series))
+                is_global_unique = len(np.unique(dt_result_series)) == 1
             else:
                 is_global_unique = np.allclose(
                     np.min(dt_result_series), dt_result_series, atol=atol, rtol=rtol
-- 
2.43.0


From c4fef4f84d02edc6995eb0634bc2ec827604b1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 002/106] fix: TSCDataFrame.insert_ts changed the index of the
 inserted frame

---
 datafold/pcfold/timeseries/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 8505b3b..5bf25cd 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1471,13 +1471,14 @@ class TSCDataFrame(pd.DataFrame):
             )
 
         # Add the ID to the first level of the MultiIndex
+        df = df.copy(deep=True)  # do not change the index of the input
         df.index = pd.MultiIndex.from_arrays(
             [np.ones(df.shape[0], dtype=int) * ts_id, _index],
             names=[self.tsc_id_idx_name, self.tsc_time_idx_name],
         )
 
         # 'self' has to appear first to keep TSCDataFrame type.
-        return pd.concat([self, df.copy(deep=True)], sort=False, axis=0)
+        return pd.concat([self, df], sort=False, axis=0)
 
     def time_interval(
         self, ts_id: Optional[int] = None
-- 
2.43.0


From 3fbbb9d7c44cba9160f34fd08fd2f7f43011f24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 003/106] fix: TSCDataFrame.select_time_values failed or lost
 samples for unsorted indices

---
 datafold/pcfold/timeseries/collection.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 5bf25cd..be65c45 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1611,8 +1611,20 @@ class TSCDataFrame(pd.DataFrame):
             a ``pandas.DataFrame``.
 
         """
-        idx = pd.IndexSlice
-        return self.loc[idx[:, time_values], :]
+        if isinstance(time_values, slice):
+            idx = pd.IndexSlice
+            return self.loc[idx[:, time_values], :]
+
+        # Note: use a mask because selecting on a MultiIndex level is only reliable if the
+        # index is sorted (the time series IDs are allowed to be in any order)
+        time_values = pd.Index(np.atleast_1d(time_values))
+        time_index = self.index.get_level_values(self.tsc_time_idx_name)
+        missing = ~time_values.isin(time_index)
+
+        if missing.any():
+            raise KeyError(f"time values {time_values[missing]} not in collection")
+
+        return self.loc[time_index.isin(time_values), :]
 
     def initial_states(self, n_samples: int = 1) -> "TSCDataFrame":
         """Get initial state of each time series in the collection.
-- 
2.43.0


From 525b264490e22be7734bbd75dcb1ae095f2b68b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 004/106] fix: TSCDataFrame.feature_to_array mislabelled rows
 of unordered time series IDs

---
 datafold/pcfold/timeseries/collection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index be65c45..626696b 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1590,7 +1590,12 @@ class TSCDataFrame(pd.DataFrame):
         )
 
         if as_frame:
-            array = pd.DataFrame(array, index=self.ids, columns=self.time_values())
+            stored_ids = self.index.get_level_values(self.tsc_id_idx_name)
+            array = pd.DataFrame(
+                array,
+                index=stored_ids[:: self.n_timesteps],
+                columns=self.time_values(),
+            )
 
         return array
 
-- 
2.43.0


From be5d35eda66c0d59f877a3130efd76889625d3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 005/106] fix: TSCDataFrame.time_values was not sorted for
 unsorted index levels

---
 datafold/pcfold/timeseries/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 626696b..7f9e2b5 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1511,7 +1511,8 @@ class TSCDataFrame(pd.DataFrame):
             all time values that appear in the collection
         """
         self.index = self.index.remove_unused_levels()
-        ret_idx = np.asarray(self.index.levels[1])
+        # levels of a MultiIndex are not necessarily sorted
+        ret_idx = np.sort(np.asarray(self.index.levels[1]))
         if self.fixed_delta is not None and with_fixed_delta:
             ret_idx = ret_idx.astype(float)
             ret_idx *= self.fixed_delta
-- 
2.43.0


From 8485cc135022c95accfc519289f1a40254da1759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 006/106] fix: fill_timeseries_with_last_state attached samples
 under ID 0

---
 datafold/pcfold/timeseries/accessor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 62c3862..8f6b9d7 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -1153,7 +1153,10 @@ class TSCAccessor:
         attach_states = np.tile(last_state, (n_attach, 1))
         attach_time = np.arange(first_time, first_time + n_attach * dt - 1e-15, dt)
         tsc_attach = TSCDataFrame.from_array(
-            attach_states, time_values=attach_time, feature_names=self._tsc_df.columns
+            attach_states,
+            time_values=attach_time,
+            feature_names=self._tsc_df.columns,
+            ts_id=self._tsc_df.ids[0],
         )
         return pd.concat([self._tsc_df, tsc_attach], axis=0)
 
-- 
2.43.0


From cf2b385985a73f21eeb4493362ec30d8a0725ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 007/106] fix: shift_time_per_time_series mixed up time series
 with unordered IDs

---
 datafold/pcfold/timeseries/accessor.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 8f6b9d7..06f29e1 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -588,10 +588,6 @@ class TSCAccessor:
            shifted time series collection and shift_values (optional)
 
         """
-        n_timesteps = self._tsc_df.n_timesteps
-        if isinstance(n_timesteps, pd.Series):
-            n_timesteps = n_timesteps.to_numpy()
-
         if shift_values is None:
             shift_values = self._tsc_df.initial_states(1).index
             shift_values = pd.Series(
@@ -611,7 +607,10 @@ class TSCAccessor:
                 )
 
         if np.any(shift_values != 0):
-            time_shift_expanded = np.repeat(shift_values.to_numpy(), n_timesteps)
+            # select by ID because time series are not necessarily stored in sorted order
+            time_shift_expanded = shift_values.loc[
+                self._tsc_df.index.get_level_values("ID")
+            ].to_numpy()
 
             normalized_time_values = (
                 self._tsc_df.index.get_level_values("time") + time_shift_expanded
-- 
2.43.0


From 59b0ea50e8a45c161273f49175c2b0bd0d489ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 008/106] fix: shift_matrices paired samples across series for
 unordered IDs

---
 datafold/pcfold/timeseries/accessor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 06f29e1..4ae4158 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -1244,7 +1244,11 @@ class TSCAccessor:
                     right = np.delete(values.copy(), idx_del_right, axis=0)
 
             elif isinstance(ts_counts, pd.Series):
-                idx = np.append(0, ts_counts.to_numpy()).cumsum()
+                # the counts are sorted by ID, which may differ from the stored order
+                stored_ids = self._tsc_df.index.get_level_values(
+                    TSCDataFrame.tsc_id_idx_name
+                ).unique()
+                idx = np.append(0, ts_counts.loc[stored_ids].to_numpy()).cumsum()
                 idx_del_left = (idx - 1)[1:]
                 idx_del_right = idx[:-1]
 
-- 
2.43.0


From 79e56b62e7e3126236990dc1f991b051131aefc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 009/106] fix: augment_control_input dropped the first sample
 mask if the first ID is 1

---
 datafold/pcfold/timeseries/accessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 4ae4158..7258f03 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -1167,7 +1167,7 @@ class TSCAccessor:
 
         X_ids = self._tsc_df.index.get_level_values(TSCDataFrame.tsc_id_idx_name)
         mask_all_except_first = np.logical_not(
-            np.diff(X_ids, prepend=True).astype(bool)
+            np.diff(X_ids, prepend=-1).astype(bool)
         )
         mask_all_except_last = np.append(
             np.logical_not((X_ids[:-1] - X_ids[1:]).astype(bool)), False
-- 
2.43.0


From 7fcc4ff6c720df554644cbcb7a3322a0a42c48ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 010/106] fix: normalize_time truncated time values with
 floating point noise

---
 datafold/pcfold/timeseries/accessor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 7258f03..31cb461 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -669,7 +669,10 @@ class TSCAccessor:
             min_time = min_time.astype(int)
             delta_time = delta_time.astype(int)
 
-        convert_times = np.array((convert_times - min_time) / delta_time, dtype=int)
+        # round before truncating because of floating point noise (e.g. 0.3 / 0.1 < 3)
+        convert_times = np.array(
+            np.round((convert_times - min_time) / delta_time, 6), dtype=int
+        )
         convert_times = pd.Index(convert_times, name=TSCDataFrame.tsc_time_idx_name)
 
         new_tsc_index = pd.MultiIndex.from_arrays(
-- 
2.43.0


From 4fc80d46d4d36b90aa50f5e26b2c85df5666f8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:46 +0000
Subject: [PATCH 011/106] fix: TSCDataFrame.delta_time ignored the first float
 time difference

---
 datafold/pcfold/timeseries/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 7f9e2b5..c99c80e 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1070,7 +1070,7 @@ class TSCDataFrame(pd.DataFrame):
                     # need to check if all values are the same
                     if diff_times.dtype == float:
                         result = np.min(diff_times, axis=1)[:, np.newaxis]
-                        abs_diff = np.abs(diff_times[:, 1:] - result)
+                        abs_diff = np.abs(diff_times - result)
 
                         within_atol = np.all(abs_diff < atol, axis=1)
                         within_rtol = np.all(
-- 
2.43.0


From 915014bf1502ed8dfc80db424495901451d4a96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:46 +0000
Subject: [PATCH 012/106] fix: fill_timeseries_with_last_state attached too
 many samples for float time values

---
 datafold/pcfold/timeseries/accessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 31cb461..b7e616c 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -1153,7 +1153,7 @@ class TSCAccessor:
         first_time = self._tsc_df.time_values()[-1] + dt
 
         attach_states = np.tile(last_state, (n_attach, 1))
-        attach_time = np.arange(first_time, first_time + n_attach * dt - 1e-15, dt)
+        attach_time = first_time + dt * np.arange(n_attach)
         tsc_attach = TSCDataFrame.from_array(
             attach_states,
             time_values=attach_time,
-- 
2.43.0


From 27500c183139ce47bc40fb9a67360021345be074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 013/106] fix: TSCDataFrame.ids was not sorted for unsorted
 index levels

---
 datafold/pcfold/timeseries/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index c99c80e..b5d74f4 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -979,7 +979,8 @@ class TSCDataFrame(pd.DataFrame):
         """The time series IDs in the collection."""
         # update index by removing potentially unused levels
         self.index = self.index.remove_unused_levels()
-        return self.index.levels[0]
+        # levels of a MultiIndex are not necessarily sorted
+        return self.index.levels[0].sort_values()
 
     @property
     def delta_time(self) -> Union[pd.Series, int, float, np.timedelta64]:
-- 
2.43.0


From ca948953768c03154087501cf3d71d56b7325aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 014/106] fix: const_sampled_time_values lost the last time
 value for float time values

---
 datafold/pcfold/timeseries/collection.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index b5d74f4..5276bc6 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1547,9 +1547,10 @@ class TSCDataFrame(pd.DataFrame):
             # maintain actual time dtype
             _dtype = self.index.get_level_values(self.tsc_time_idx_name).dtype
 
-            return np.arange(
-                start, np.nextafter(end, np.finfo(float).max), self.delta_time
-            ).astype(_dtype)
+            # fix the number of samples to be robust against floating point noise
+            delta_time = self.delta_time
+            n_samples = int(np.floor((end - start) / delta_time + 1e-6)) + 1
+            return (start + delta_time * np.arange(n_samples)).astype(_dtype)
 
     def feature_to_array(
         self, feature: Optional[str] = None, as_frame: bool = False
-- 
2.43.0


From 8250ea0c67dad5273abf232e40c6c7214c9b18b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 015/106] fix: TSCFiniteDifference failed for a numeric spacing

---
 datafold/dynfold/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index de37184..f89dff4 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1644,9 +1644,10 @@ class TSCFiniteDifference(BaseEstimator, TSCTransformerMixin):
         else:
             check_scalar(
                 x=self.spacing,
+                name="spacing",
                 target_type=(float, int),
                 min_val=0,
-                include_boundaries="right",
+                include_boundaries="neither",
             )
             self.spacing_ = self.spacing
 
-- 
2.43.0


From a65638e45e4f4f28f721349ce1c8bb7f92b18541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 016/106] fix: from_array_control failed for some float
 sampling intervals

---
 datafold/pcfold/timeseries/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 5276bc6..e57b876 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1839,7 +1839,8 @@ class InitialCondition:
             raise ValueError("")
 
         if time_values is None:
-            time_values = np.arange(0, U.shape[0] * dt, dt)
+            # not "np.arange(0, n * dt, dt)", which can have n + 1 values for float "dt"
+            time_values = dt * np.arange(U.shape[0])
 
         U = TSCDataFrame.from_array(
             U, time_values=time_values, feature_names=control_names, ts_id=ts_id
-- 
2.43.0


From 7de3492e735187a004c9b360944dfb9cb38c4390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 017/106] fix: TSCWindowFoldTime failed if a window leaves no
 training samples

---
 datafold/pcfold/timeseries/metric.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/datafold/pcfold/timeseries/metric.py b/datafold/pcfold/timeseries/metric.py
index a21ae5c..35d5028 100644
--- a/datafold/pcfold/timeseries/metric.py
+++ b/datafold/pcfold/timeseries/metric.py
@@ -911,6 +911,9 @@ class TSCWindowFoldTime(TSCCrossValidationSplit):
             offset=self.test_window_length + self.test_offset,
             per_time_series=True,
         ):
+            if test_tsc.shape[0] == indices_tsc.shape[0]:
+                continue  # there are no samples left for training
+
             train_tsc = indices_tsc.copy().drop(test_tsc.index, axis=0)
 
             # it is important to reassign the ids to keep the same sub-sampling and
@@ -930,10 +933,10 @@ class TSCWindowFoldTime(TSCCrossValidationSplit):
                         train_tsc.n_timesteps < self.minimum_n_timesteps
                     ].index
 
-                    if len(drop_ids) > 0:
-                        train_tsc = train_tsc.drop(
-                            drop_ids if len(drop_ids) > 0 else None, level=0
-                        )
+                    if len(drop_ids) == len(n_timesteps):
+                        train_tsc = pd.DataFrame()
+                    elif len(drop_ids) > 0:
+                        train_tsc = train_tsc.drop(drop_ids, level=0)
                 else:
                     if n_timesteps < self.minimum_n_timesteps:
                         train_tsc = pd.DataFrame()
-- 
2.43.0


From b24d08e3fe679a4d41ec1ec5ba539a7aa83306d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 018/106] fix: l2_normalize of TSCMetric scaled samples instead
 of features

---
 datafold/pcfold/timeseries/metric.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/timeseries/metric.py b/datafold/pcfold/timeseries/metric.py
index 35d5028..73e651b 100644
--- a/datafold/pcfold/timeseries/metric.py
+++ b/datafold/pcfold/timeseries/metric.py
@@ -107,8 +107,16 @@ class TSCMetric:
 
         # first normalize y_true, afterwards (with the same factors from y_true!) y_pred
         if self.scaling is not None:  # is None if scaling is identity
-            y_true = self.scaling.fit_transform(y_true)
-            y_pred = self.scaling.transform(y_pred)
+            if isinstance(self.scaling, Normalizer):
+                # the scikit-learn class normalizes samples (and each data set with its
+                # own factors), whereas here each feature is divided by its norm
+                factor = np.linalg.norm(y_true, axis=0)
+                factor[factor == 0] = 1
+                y_true = y_true.to_numpy() / factor
+                y_pred = y_pred.to_numpy() / factor
+            else:
+                y_true = self.scaling.fit_transform(y_true)
+                y_pred = self.scaling.transform(y_pred)
 
             y_true = TSCDataFrame(y_true, index=index, columns=columns)
             y_pred = TSCDataFrame(y_pred, index=index, columns=columns)
-- 
2.43.0


From b858ea8b68f61ad8e65ba1d5e1567aa86640a70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 019/106] fix: TSCMetric per timestep failed for unordered time
 series IDs

---
 datafold/pcfold/timeseries/metric.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/datafold/pcfold/timeseries/metric.py b/datafold/pcfold/timeseries/metric.py
index 73e651b..3f31df4 100644
--- a/datafold/pcfold/timeseries/metric.py
+++ b/datafold/pcfold/timeseries/metric.py
@@ -385,10 +385,9 @@ class TSCMetric:
             TSCDataFrame.tsc_time_idx_name
         )
 
-        idx_slice = pd.IndexSlice
         for t in time_values:
-            y_true_t = pd.DataFrame(y_true.loc[idx_slice[:, t], :])
-            y_pred_t = pd.DataFrame(y_pred.loc[idx_slice[:, t], :])
+            y_true_t = pd.DataFrame(y_true.select_time_values(t))
+            y_pred_t = pd.DataFrame(y_pred.select_time_values(t))
 
             metric_per_time.loc[t, :] = self.metric(
                 y_true_t,
-- 
2.43.0


From c7693bff52da7b02f329deee4f92b9c93b6b35d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 020/106] fix: TSCMetric norms ignored user weights of features

---
 datafold/pcfold/timeseries/metric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/metric.py b/datafold/pcfold/timeseries/metric.py
index 3f31df4..73765a6 100644
--- a/datafold/pcfold/timeseries/metric.py
+++ b/datafold/pcfold/timeseries/metric.py
@@ -138,7 +138,9 @@ class TSCMetric:
 
         norm = np.linalg.norm(diff, ord=order, axis=0)
 
-        if multioutput == "uniform_average":
+        if isinstance(multioutput, np.ndarray):
+            norm = np.average(norm, weights=multioutput)
+        elif multioutput == "uniform_average":
             norm = np.mean(norm)
 
         return norm
-- 
2.43.0


From 261bdf7959e034ed6eb475a8be71fbd81a66388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 021/106] fix: describe the data of the current fit in the
 feature attributes of transformers

---
 datafold/dynfold/base.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index bcc869e..e79a6f9 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -253,30 +253,30 @@ class TSCTransformerMixin(TSCBase, TransformerMixin):
         X,
         n_features_out: Optional[int] = None,
     ) -> None:
-        if not hasattr(self, "n_features_in_"):
-            # sklearn function to set n_features_in_
-            self._check_n_features(X, reset=True)
-
-        if not hasattr(self, "feature_names_in_"):
-            if isinstance(X, TSCDataFrame) and not isinstance(X.columns[0], str):
-                # workaround for datafold to support non-str feature names
-                # sklearn does only support feature names of type str
-                # Note that there is a guarantee for TSCDataFrame that the feature names have
-                # same type
-                self.feature_names_in_ = X.columns.to_numpy()
-            else:
-                # sklearn function to set feature_names_in_
-                self._check_feature_names(X, reset=True)
+        # Note: the attributes are always reset, because they must describe the data of the
+        # current fit and not the data of an earlier one.
+
+        # sklearn function to set n_features_in_
+        self._check_n_features(X, reset=True)
+
+        if isinstance(X, TSCDataFrame) and not isinstance(X.columns[0], str):
+            # workaround for datafold to support non-str feature names
+            # sklearn does only support feature names of type str
+            # Note that there is a guarantee for TSCDataFrame that the feature names have
+            # same type
+            self.feature_names_in_ = X.columns.to_numpy()
+        else:
+            # sklearn function to set feature_names_in_
+            self._check_feature_names(X, reset=True)
 
         # TODO: set features out implemented in alignment to SLEO013, but this proposal was
         #  rejected -- think of removing n_features_out (check how often and where it is used)
         # https://scikit-learn-enhancement-proposals.readthedocs.io/en/latest/slep013/proposal.html  # noqa
-        if not hasattr(self, "n_features_out_"):
-            if n_features_out is None:
-                feature_out = self.get_feature_names_out()
-                self.n_features_out_: int = len(feature_out)
-            else:
-                self.n_features_out_ = n_features_out
+        if n_features_out is None:
+            feature_out = self.get_feature_names_out()
+            self.n_features_out_: int = len(feature_out)
+        else:
+            self.n_features_out_ = n_features_out
 
     def _validate_feature_input(
         self: Union[BaseEstimator, "TSCTransformerMixin"], X: TransformType, direction
-- 
2.43.0


From 57b26b357ea329e4e9106a81b3a0c7221887cb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 022/106] fix: reject differently named non-string features in
 transform

---
 datafold/dynfold/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index e79a6f9..adb5ec3 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -286,6 +286,14 @@ class TSCTransformerMixin(TSCBase, TransformerMixin):
         if direction == "transform":
             self._check_n_features(X, reset=False)
             self._check_feature_names(X, reset=False)
+
+            # sklearn compares the feature names only if they are of type str
+            if self._has_feature_names(X) and hasattr(self, "feature_names_in_"):
+                if not np.array_equal(self.feature_names_in_, X.columns.to_numpy()):
+                    raise ValueError(
+                        "The features names do not match. "
+                        f"Required: {self.feature_names_in_}."
+                    )
         else:  # direction == inverse_transform
             should_n_features = self.n_features_out_
 
-- 
2.43.0


From 8e2ecfc378d6cb303da0ca59aaa126e7247279c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 023/106] fix: raise NotFittedError if a transformer is used
 before fit

---
 datafold/dynfold/base.py      | 2 +-
 datafold/dynfold/transform.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index adb5ec3..efe22f2 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -281,7 +281,7 @@ class TSCTransformerMixin(TSCBase, TransformerMixin):
     def _validate_feature_input(
         self: Union[BaseEstimator, "TSCTransformerMixin"], X: TransformType, direction
     ) -> None:
-        self._check_attributes_set_up(["n_features_in_", "n_features_out_"])
+        check_is_fitted(self, attributes=["n_features_in_", "n_features_out_"])
 
         if direction == "transform":
             self._check_n_features(X, reset=False)
diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index f89dff4..ad049cb 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -749,6 +749,7 @@ class TSCTakensEmbedding(BaseEstimator, TSCTransformerMixin):
             (2) all time series must have the minimum number of time samples to obtain
             one sample in the time delay embedding.
         """
+        check_is_fitted(self)
         X = self._validate_datafold_data(
             X,
             tsc_kwargs={
-- 
2.43.0


From 7e265050c958730c99ca22ec791946534b059723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 024/106] fix: validate input of
 TSCFeaturePreprocess.inverse_transform

---
 datafold/dynfold/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index ad049cb..abf4614 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -172,6 +172,9 @@ class TSCFeaturePreprocess(BaseEstimator, TSCTransformerMixin):
         if not hasattr(self.sklearn_transformer, "inverse_transform"):
             raise AttributeError("sklearn object has no 'inverse_transform' attribute")
 
+        check_is_fitted(self, "sklearn_transformer_fit_")
+        self._validate_feature_input(X, direction="inverse_transform")
+
         values = self.sklearn_transformer_fit_.inverse_transform(X)
         return self._same_type_X(
             X=X, values=values, feature_names=self.feature_names_in_
-- 
2.43.0


From d7cb727121fbf2d52f82b39dea2a70c52c23f949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 025/106] fix: support numpy arrays in inverse_transform of
 transformers

---
 datafold/dynfold/transform.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index abf4614..3981040 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -177,7 +177,10 @@ class TSCFeaturePreprocess(BaseEstimator, TSCTransformerMixin):
 
         values = self.sklearn_transformer_fit_.inverse_transform(X)
         return self._same_type_X(
-            X=X, values=values, feature_names=self.feature_names_in_
+            X,
+            values=values,
+            # not available if fitted with a numpy array
+            feature_names=getattr(self, "feature_names_in_", None),
         )
 
 
@@ -367,7 +370,6 @@ class TSCIdentity(BaseEstimator, TSCTransformerMixin):
         self._validate_feature_input(X, direction="inverse_transform")
 
         if self.include_const:
-            X = X.copy(deep=True)
             if self._has_feature_names(X):
                 X = X.drop("const", axis=1)
             else:
@@ -514,7 +516,10 @@ class TSCPrincipalComponent(PCA, TSCTransformerMixin):
         data_orig_space = super().inverse_transform(X)
 
         return self._same_type_X(
-            X, values=data_orig_space, feature_names=self.feature_names_in_
+            X,
+            values=data_orig_space,
+            # not available if fitted with a numpy array
+            feature_names=getattr(self, "feature_names_in_", None),
         )
 
 
@@ -1306,7 +1311,10 @@ class TSCRadialBasis(BaseEstimator, TSCTransformerMixin):
 
         X_inverse = rbf_coeff @ self.inv_coeff_matrix_
         return self._same_type_X(
-            X, values=X_inverse, feature_names=self.feature_names_in_
+            X,
+            values=X_inverse,
+            # not available if fitted with a numpy array
+            feature_names=getattr(self, "feature_names_in_", None),
         )
 
 
-- 
2.43.0


From 423ed521091dc2b3a7fedc6258ac1cc3aa85f11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 026/106] fix: recompute the inverse coefficients of
 TSCRadialBasis after a new fit

---
 datafold/dynfold/transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 3981040..ea148ea 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1221,6 +1221,10 @@ class TSCRadialBasis(BaseEstimator, TSCTransformerMixin):
                 "center_type was not checked correctly. Please report bug."
             )
 
+        if hasattr(self, "inv_coeff_matrix_"):
+            # the matrix belongs to the centers of a previous fit
+            del self.inv_coeff_matrix_
+
         self._setup_feature_attrs_fit(X)
 
         return self
-- 
2.43.0


From 62e63c1967a861d19793cd65eed09e11595dde78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 027/106] fix: announce feature names of TSCApplyLambdas in the
 order of the output

---
 datafold/dynfold/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index ea148ea..8bec5b1 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1485,8 +1485,8 @@ class TSCApplyLambdas(BaseEstimator, TSCTransformerMixin):
         return np.array(
             [
                 f"{feature_name}_lambda{i}"
-                for feature_name in feature_names_in
                 for i in range(len(self.lambdas))
+                for feature_name in feature_names_in
             ]
         )
 
-- 
2.43.0


From cd433b35df4503705f8d269e8241c168759e876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 028/106] fix: announce the feature names TSCFiniteDifference
 assigns

---
 datafold/dynfold/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 8bec5b1..6af8fc3 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1605,7 +1605,7 @@ class TSCFiniteDifference(BaseEstimator, TSCTransformerMixin):
     def get_feature_names_out(self, input_features=None):
         if input_features is None:
             input_features = self.feature_names_in_
-        return [f"{col}_dot" for col in input_features]
+        return [f"{col}_dot{self.diff_order}" for col in input_features]
 
     def fit(self, X: TransformType, y=None, **fit_params) -> "TSCFiniteDifference":
         """Set and validate time spacing between samples.
-- 
2.43.0


From d1383c6f2c4563624510e1ae9569937e4d38b858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 029/106] fix: do not change the columns of the input in
 TSCTakensEmbedding

---
 datafold/dynfold/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 6af8fc3..adc3302 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -628,6 +628,7 @@ class TSCTakensEmbedding(BaseEstimator, TSCTransformerMixin):
         # in case the column in not string it is important to transform it here to
         # string. Otherwise, There are mixed types (e.g. int and str), because the
         # delayed columns are all strings to indicate the delay number.
+        X = X.copy(deep=False)
         X.columns = X.columns.astype(np.str_)
         return X
 
-- 
2.43.0


From 611e3bfc8ca4615427cbb2fad76ac6946922dfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 030/106] fix: accept string features in TSCFeatureSelect

---
 datafold/dynfold/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index adc3302..cfc14a9 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -198,9 +198,9 @@ class TSCFeatureSelect(BaseEstimator, TSCTransformerMixin):
         self.features = features
 
     def get_feature_names_out(self, input_features=None):
-        if self.features.dtype == np.str_:
+        if np.issubdtype(self.features.dtype, np.str_):
             return self.features
-        elif self.features.dtype == np.int_:
+        elif np.issubdtype(self.features.dtype, np.integer):
             return self.feature_names_in_[self.features]
         else:
             raise ValueError(f"{self.features.dtype=} is not supported")
-- 
2.43.0


From 1f36c99baa27c619db1f42d1bc2271505b2b8927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 031/106] fix: restore the feature names in
 TSCIdentity.inverse_transform

---
 datafold/dynfold/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index cfc14a9..d793af9 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -375,6 +375,9 @@ class TSCIdentity(BaseEstimator, TSCTransformerMixin):
             else:
                 X = X[:, :-1]
 
+        if self.rename_features and self._has_feature_names(X):
+            X = X.set_axis(pd.Index(self.feature_names_in_), axis=1)
+
         return X
 
 
-- 
2.43.0


From 13b0c0e222541ae5bd475ca192e4369c17a92c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 032/106] fix: support numpy arrays in
 TSCPolynomialFeatures.transform

---
 datafold/dynfold/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index d793af9..ba9d9e6 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1442,7 +1442,7 @@ class TSCPolynomialFeatures(PolynomialFeatures, TSCTransformerMixin):
             X,
             values=poly_data,
             feature_names=self.get_feature_names_out(
-                input_features=self.feature_names_in_
+                input_features=getattr(self, "feature_names_in_", None)
             ),
         )
 
-- 
2.43.0


From d46fd5aa34bc198a088c12d92a0a40e0b5c728c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 033/106] fix: count the features out of TSCColumnTransformer
 if columns are dropped

---
 datafold/dynfold/compose.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/compose.py b/datafold/dynfold/compose.py
index 5cd922e..6b33930 100644
--- a/datafold/dynfold/compose.py
+++ b/datafold/dynfold/compose.py
@@ -65,7 +65,8 @@ class TSCColumnTransformer(compose.ColumnTransformer, TSCTransformerMixin):
     @property
     def n_features_out_(self):
         check_is_fitted(self, "transformers_")
-        return sum(tr.n_features_out_ for _, tr, _ in self.transformers_)
+        # transformers_ also contains "drop" and "passthrough"
+        return len(self.get_feature_names_out())
 
     def _hstack(self, Xs):
         if self.sparse_output_:
-- 
2.43.0


From 6adcf2dabfb00507a2b104c5480ab3aa6583d063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 034/106] fix: controlled differential systems use the control
 input (strategy and zero-order hold solver)

---
 datafold/dynfold/dynsystem.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/datafold/dynfold/dynsystem.py b/datafold/dynfold/dynsystem.py
index b0f6335..e00c4db 100644
--- a/datafold/dynfold/dynsystem.py
+++ b/datafold/dynfold/dynsystem.py
@@ -56,7 +56,7 @@ class SystemSolveStrategy:
         r"""Solves system:
         \dot{x} = A x + B u.
         """
-        time_series_tensor[:, 0, :] = initial_conditions
+        time_series_tensor[:, 0, :] = initial_conditions.T
         time_diff = np.diff(time_values)
 
         n_states = sys_matrix.shape[0]
@@ -64,16 +64,18 @@ class SystemSolveStrategy:
 
         for idx, tdiff in enumerate(time_diff):
             M = np.vstack(
-                [np.hstack([sys_matrix * tdiff]), control_matrix * tdiff],
-                np.zeros([n_inputs, n_states + n_inputs]),
+                [
+                    np.hstack([sys_matrix * tdiff, control_matrix * tdiff]),
+                    np.zeros([n_inputs, n_states + n_inputs]),
+                ]
             )
-            expM = np.linalg.expm(M)
+            expM = scipy.linalg.expm(M)
             Ad = expM[:n_states, :n_states]
-            Bd = expM[n_states:, :n_states]
+            Bd = expM[:n_states, n_states:]
 
-            time_series_tensor[:, idx + 1, :] = (
-                Ad @ time_series_tensor[:, idx, :] + Bd @ control_input[:, idx, :]
-            )
+            time_series_tensor[:, idx + 1, :] = np.real(
+                Ad @ time_series_tensor[:, idx, :].T + Bd @ control_input[:, idx, :].T
+            ).T
 
         return time_series_tensor
 
@@ -350,9 +352,12 @@ class SystemSolveStrategy:
         ):
             return SystemSolveStrategy.differential_matrix
         elif (
-            system_type == "differential" and system_mode == "matrix" and is_controlled
+            system_type == "differential"
+            and system_mode == "matrix"
+            and is_controlled
+            and not is_control_affine
         ):
-            return SystemSolveStrategy.differential_matrix
+            return SystemSolveStrategy.differential_matrix_controlled
         elif (
             system_type == "flowmap" and system_mode == "spectral" and not is_controlled
         ):
-- 
2.43.0


From 0ca153c13bbe03043479a6d753c1b574dde566c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 035/106] fix: default feature names of an overwritten system
 matrix match its number of rows

---
 datafold/dynfold/dynsystem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/dynsystem.py b/datafold/dynfold/dynsystem.py
index e00c4db..3912bc0 100644
--- a/datafold/dynfold/dynsystem.py
+++ b/datafold/dynfold/dynsystem.py
@@ -636,10 +636,10 @@ class LinearDynamicalSystem:
             time_series_ids = np.arange(initial_conditions.shape[1])
 
         if feature_names_out is None:
-            feature_names_out = np.arange(state_length)
+            feature_names_out = np.arange(n_features)
 
         if len(feature_names_out) != n_features:
-            raise ValueError(f"{len(feature_names_out)=} != {state_length=}")
+            raise ValueError(f"{len(feature_names_out)=} != {n_features=}")
 
         return (
             initial_conditions,
-- 
2.43.0


From 82cb581efe2478edf30f99ee331fb55a3c2dd30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 036/106] fix: gDMDAffine pairs state, derivative and control
 by ID and time

---
 datafold/dynfold/dmd.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index dcd9ce4..5ab256b 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -1800,10 +1800,9 @@ class gDMDAffine(DMDBase):
         Xdot_tsc = state.tsc.time_derivative(
             scheme=self.diff_scheme, accuracy=self.diff_accuracy
         )
-        # trim samples where derivative is unknown
-        # TODO: improve this by using pandas' indexing state and control_inp
-        X = state.select_time_values(Xdot_tsc.time_values()).to_numpy()
-        U = control_inp.select_time_values(Xdot_tsc.time_values()).to_numpy()
+        # trim samples where derivative is unknown (separately for each time series)
+        X = state.loc[Xdot_tsc.index, :].to_numpy()
+        U = control_inp.loc[Xdot_tsc.index, :].to_numpy()
         Xdot = Xdot_tsc.to_numpy()
 
         n_snapshots = X.shape[0]
-- 
2.43.0


From 15e572b0f4ce64afba0c301ade7157dad85e2101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 037/106] fix: control input is matched with the initial
 conditions in the order of the time series

---
 datafold/pcfold/timeseries/collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index e57b876..6c1bf32 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1988,7 +1988,9 @@ class InitialCondition:
 
     @classmethod
     def validate_control(cls, X_ic: TSCDataFrame, U: TSCDataFrame):
-        X_ic.tsc.check_contain_required_ids(required_ids=U.ids, check_order=True)
+        # IDs in order of appearance (note that "U.ids" is sorted)
+        control_ids = U.index.get_level_values(TSCDataFrame.tsc_id_idx_name).unique()
+        X_ic.tsc.check_contain_required_ids(required_ids=control_ids, check_order=True)
         U.tsc.check_equal_timevalues()
 
         last_state_time = X_ic.final_states(1).time_values()[0]
-- 
2.43.0


From 849a45eb371ca6334310ad86fbcf131c5cc75625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 038/106] fix: time values with control input of datetime type
 can be compared in predict

---
 datafold/dynfold/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index efe22f2..72e8167 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -544,7 +544,9 @@ class TSCPredictMixin(TSCBase):
         # within this function as a tolerance value
         if isinstance(reference, (int, np.int_, np.datetime64)):
             # no tol required for interger and interger-based datetime
-            _numerical_tol = 0
+            _numerical_tol = (
+                np.timedelta64(0, "ns") if isinstance(reference, np.datetime64) else 0
+            )
         else:
             _numerical_tol = 1e-14
 
-- 
2.43.0


From 0f14b9bb2898e84a95afd23e356c5dc670ed10b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 039/106] fix: DMD models can be evaluated with a numpy control
 input

---
 datafold/dynfold/dmd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 5ab256b..4a35efb 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -379,7 +379,10 @@ class DMDBase(
                     U,
                     control_names=self.control_names_in_,
                     dt=self.dt_,
-                    time_values=time_values,
+                    # the last state does not require a control input
+                    time_values=time_values
+                    if getattr(self, "_requires_last_control_state", False)
+                    else time_values[:-1],
                     ts_id=int(X.ids[0]) if isinstance(X, TSCDataFrame) else None,
                 )
                 # TODO: include pd.DataFrame type (turn to TSCDataFrame)
-- 
2.43.0


From 781aa3e2b4137cca663bb01c04d25d039d5bf0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 040/106] fix: initial conditions in a numpy array follow the
 order of the time series in the control input

---
 datafold/appfold/edmd.py | 4 +++-
 datafold/dynfold/dmd.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index a9865b5..e08a3bf 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1169,7 +1169,9 @@ class EDMD(
                 if1dim_rowvec(X),
                 time_value=time_values[0],
                 feature_names=self.feature_names_in_,
-                ts_ids=U.ids if isinstance(U, TSCDataFrame) else None,
+                ts_ids=U.index.get_level_values(TSCDataFrame.tsc_id_idx_name).unique()
+                if isinstance(U, TSCDataFrame)
+                else None,
             )
         else:
             InitialCondition.validate(
diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 4a35efb..7cf4b65 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -358,7 +358,9 @@ class DMDBase(
                 X,
                 time_value=time_values[0],
                 feature_names=self.feature_names_in_,
-                ts_ids=U.ids if isinstance(U, TSCDataFrame) else None,
+                ts_ids=U.index.get_level_values(TSCDataFrame.tsc_id_idx_name).unique()
+                if isinstance(U, TSCDataFrame)
+                else None,
             )
         else:
             # for DMD the number of samples per initial condition is always 1
-- 
2.43.0


From 34f2541205a3c0b754a5055a80088591d236a0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 041/106] fix: reject control input with other sampling than
 the one of the discrete model

---
 datafold/dynfold/dmd.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 7cf4b65..32caa1e 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -13,6 +13,7 @@ from datafold._decorators import warn_experimental_class, warn_experimental_func
 from datafold.dynfold.base import InitialConditionType, TimePredictType, TSCPredictMixin
 from datafold.dynfold.dynsystem import LinearDynamicalSystem
 from datafold.pcfold import InitialCondition, TSCDataFrame
+from datafold.pcfold.timeseries.collection import TSCException
 from datafold.utils.general import (
     diagmat_dot_mat,
     if1dim_colvec,
@@ -395,6 +396,15 @@ class DMDBase(
 
             InitialCondition.validate_control(X_ic=X, U=U)
 
+            if self.sys_type == "flowmap" and len(time_values) > 1:
+                # each control state acts over a single time step of the model
+                time_steps = np.diff(time_values) / self.dt_
+                if not np.allclose(time_steps, 1, rtol=0, atol=1e-6):
+                    raise TSCException(
+                        "The time sampling of the control input must match the time "
+                        f"sampling of the model ({self.dt_=})."
+                    )
+
         X, U, time_values = self._validate_features_and_time_values(
             X=X, U=U, time_values=time_values
         )
-- 
2.43.0


From 81371a48032816744c6ffb9735ddd76333e44d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 042/106] fix: number of default time values for a numpy
 control input

---
 datafold/dynfold/base.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index 72e8167..4e9bac5 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -576,13 +576,10 @@ class TSCPredictMixin(TSCBase):
                         )
 
                 else:
-                    time_values = np.arange(
-                        reference,
-                        reference
-                        + _numerical_tol
-                        + (U.shape[0] + int(not req_last_control_state))  # type: ignore
-                        * dt,
-                        dt,
+                    # not "np.arange(start, end, dt)", where the number of values depends on
+                    # the floating point errors
+                    time_values = reference + dt * np.arange(
+                        U.shape[0] + int(not req_last_control_state)  # type: ignore
                     )
             else:
                 time_values = np.array([reference, reference + dt])
-- 
2.43.0


From a93087553dc26d441c7a7d4b7ccc5d5b2f1afb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 043/106] fix: integration of control-affine systems does not
 leave the interpolation range of the control by rounding errors

---
 datafold/dynfold/dynsystem.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/dynsystem.py b/datafold/dynfold/dynsystem.py
index 3912bc0..d3b65d3 100644
--- a/datafold/dynfold/dynsystem.py
+++ b/datafold/dynfold/dynsystem.py
@@ -94,8 +94,14 @@ class SystemSolveStrategy:
         """
         # solve for each initial condition separately
         for i in range(initial_conditions.shape[1]):
+            # "extrapolate" because the integrator may exceed the last time value by
+            # floating point errors
             interp_control = interp1d(
-                time_values, control_input[i], axis=0, kind="cubic"
+                time_values,
+                control_input[i],
+                axis=0,
+                kind="cubic",
+                fill_value="extrapolate",
             )
 
             affine_system_func = lambda t, state: (
-- 
2.43.0


From cf258b2902c2c26deb8ae2cbf9d892eda96e0aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 044/106] fix: recursion of OnlineDMD loses all digits by its
 extreme prior

---
 datafold/dynfold/dmd.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 32caa1e..db94fed 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2483,13 +2483,16 @@ class OnlineDMD(DMDBase):
             return evals, right_evec, None
 
     def _basic_initialize(self, X) -> None:
-        """Initialize online DMD with epsilon small (1e-15) ghost snapshot pairs before t=0."""
+        """Initialize online DMD with a small ghost snapshot pairs before t=0."""
         self._validate_parameters()
         self._validate_and_setup_fit_attrs(X)
         n_states = X.shape[1]
 
-        epsilon = 1e-15
-        alpha = 1.0 / epsilon
+        # Prior of the recursion: small in comparison to the data, but large enough that the
+        # rank-one downdates of the matrix `P` (which starts with 1 / epsilon) do not cancel
+        # out all digits.
+        epsilon = 1e-9 * np.mean(np.square(X.to_numpy()))
+        alpha = 1.0 / epsilon if epsilon > 0 else 1e9
 
         # TODO: maybe provide random_state in __init__?
         self.A = np.random.default_rng(1).normal(size=(n_states, n_states))
-- 
2.43.0


From f75d1a9c34b5de6afa462dfb12149511b90a4016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 045/106] fix: updates of StreamingDMD: pair across the initial
 fit, leading directions in the compression, predictions

---
 datafold/dynfold/dmd.py | 51 ++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index db94fed..53368d3 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2174,8 +2174,8 @@ class StreamingDMD(DMDBase):
         # check if compression is needed
         if self.max_rank is not None:
             if n_qx > self.max_rank:
-                evals, evecs = np.linalg.eig(self._Gx)
-                idx = np.argsort(evals)
+                evals, evecs = np.linalg.eigh(self._Gx)
+                idx = np.argsort(evals)[::-1]
 
                 # indices of largest eigenvalues
                 idx = idx[: self.max_rank]
@@ -2184,8 +2184,8 @@ class StreamingDMD(DMDBase):
                 self.A = self.A @ evecs[:, idx]
                 self._Gx = np.diag(evals[idx])
             if n_qy > self.max_rank:
-                evals, evecs = np.linalg.eig(self._Gy)
-                idx = np.argsort(evals)
+                evals, evecs = np.linalg.eigh(self._Gy)
+                idx = np.argsort(evals)[::-1]
 
                 # indices of largest eigenvalues
                 idx = idx[: self.max_rank]
@@ -2244,17 +2244,19 @@ class StreamingDMD(DMDBase):
         return self
 
     def _separate_init_pairs(self, X: TSCDataFrame):
-        X_init_fit, X_other = X.iloc[0:2, :], X.iloc[2:, :]
-        X_init_fit.tsc.check_tsc(ensure_n_timeseries=1)
-
         if X.has_degenerate():
             raise ValueError(
                 "The time series must contain time series with at least two "
-                "samples per time series. Note that the very first time series (to "
-                "fit the model initially) should contain either exactly two or "
-                "more than three time samples."
+                "samples per time series."
             )
 
+        X_init_fit = X.iloc[0:2, :]
+        X_init_fit.tsc.check_tsc(ensure_n_timeseries=1)
+
+        # if the first time series continues, then its second sample also starts the next pair
+        is_continued = X.index[0][0] in X.index[2:].get_level_values(0)
+        X_other = X.iloc[1:, :] if is_continued else X.iloc[2:, :]
+
         return X_init_fit, X_other
 
     def _compute_koopman_matrix(self):
@@ -2297,28 +2299,31 @@ class StreamingDMD(DMDBase):
         self._validate_parameter()
         self._read_fit_params(attrs=None, fit_params=fit_params)
 
+        X = self._validate_datafold_data(
+            X,
+            ensure_tsc=True,
+            ensure_min_samples=2,
+            tsc_kwargs=dict(ensure_no_degenerate_ts=True, ensure_const_delta_time=True),
+        )
+
         if not hasattr(self, "dt_"):  # initial fit
             X_init_fit, X = self._separate_init_pairs(X)
             self.fit(X_init_fit)
-
-            if X.empty:
-                return self
         else:
             self._validate_feature_names(X)
             self._validate_delta_time(X.delta_time)
 
-        self._validate_datafold_data(X, ensure_tsc=True, ensure_min_samples=2)
-
-        (
-            Xm,
-            Xp,
-        ) = X.tsc.shift_matrices(snapshot_orientation="row")
+        if not X.empty:
+            (
+                Xm,
+                Xp,
+            ) = X.tsc.shift_matrices(snapshot_orientation="row")
 
-        norm_m = np.linalg.norm(Xm, axis=1)
-        norm_p = np.linalg.norm(Xp, axis=1)
+            norm_m = np.linalg.norm(Xm, axis=1)
+            norm_p = np.linalg.norm(Xp, axis=1)
 
-        for i in range(Xm.shape[0]):
-            self._update(Xm[i, :], Xp[i, :], norm_m[i], norm_p[i])
+            for i in range(Xm.shape[0]):
+                self._update(Xm[i, :], Xp[i, :], norm_m[i], norm_p[i])
 
         # required to perform predictions
         (
-- 
2.43.0


From 1c277403f0cb345011b0febe5a91c85e86878f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 046/106] fix: StreamingDMD predicts like the other models
 without control (validation, default time values)

---
 datafold/dynfold/dmd.py | 55 -----------------------------------------
 1 file changed, 55 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 53368d3..2919c93 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2337,61 +2337,6 @@ class StreamingDMD(DMDBase):
 
         return self
 
-    def predict(
-        self,
-        X: TimePredictType,
-        *,
-        U=None,
-        time_values=None,
-        **predict_params,
-    ):
-        """Predict time series data for each initial condition and time values.
-
-        Parameters
-        ----------
-        X: TSCDataFrame, numpy.ndarray
-            Initial conditions of shape `(n_initial_condition, n_features)`.
-
-        time_values
-            Time values to evaluate the model at. If not provided, then predict a single step
-            from initial condition plus time in ``dt_``.
-
-        Returns
-        -------
-        TSCDataFrame
-            The computed time series predictions, where each time series has shape
-            `(n_time_values, n_features)`.
-        """
-        check_is_fitted(self)
-        X, _, time_values = self._validate_features_and_time_values(
-            X, U=None, time_values=time_values
-        )
-
-        post_map, user_set_modes, feature_columns = self._read_predict_params(
-            predict_params=predict_params
-        )
-
-        user_sys_matrix = self._read_user_sys_matrix(
-            post_map=post_map, user_set_modes=user_set_modes
-        )
-
-        if user_sys_matrix is None:
-            system_matrix = self.eigenvectors_right_
-            _feat_names = self.feature_names_in_
-        else:
-            system_matrix = user_sys_matrix
-            _feat_names = feature_columns
-
-        X_predict = self._evolve_dmd_system(
-            X_ic=X,
-            overwrite_sys_matrix=system_matrix,
-            control_input=None,
-            time_values=time_values,
-            feature_columns=_feat_names,
-        )
-
-        return X_predict
-
 
 class OnlineDMD(DMDBase):
     r"""Online dynamic mode decomposition on time-varying system data.
-- 
2.43.0


From 7a3503796776ff36fb5c23b87127451a867f1dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 047/106] fix: left eigenvectors of gDMDFull and OnlineDMD

---
 datafold/dynfold/dmd.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 2919c93..4bca341 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -120,6 +120,22 @@ class DMDBase(
 
     """
 
+    def _compute_left_eigenvectors(
+        self, system_matrix, eigenvalues, eigenvectors_right
+    ):
+        """Compute left eigenvectors such that
+        system_matrix = eigenvectors_right_ @ diag(eigenvalues) @ eigenvectors_left_.
+
+        .. note::
+             The eigenvectors are
+
+             * not normed
+             * row-wise in returned matrix
+
+        """
+        lhs_matrix = mat_dot_diagmat(eigenvectors_right, eigenvalues)
+        return np.linalg.solve(lhs_matrix, system_matrix)
+
     @property
     def dmd_modes(self):
         if not self.is_spectral_mode:
@@ -986,22 +1002,6 @@ class DMDStandard(DMDBase):
         #     (None if eigenvectors_left is None else np.vstack(new_lvecs)),
         # )
 
-    def _compute_left_eigenvectors(
-        self, system_matrix, eigenvalues, eigenvectors_right
-    ):
-        """Compute left eigenvectors such that
-        system_matrix = eigenvectors_right_ @ diag(eigenvalues) @ eigenvectors_left_.
-
-        .. note::
-             The eigenvectors are
-
-             * not normed
-             * row-wise in returned matrix
-
-        """
-        lhs_matrix = mat_dot_diagmat(eigenvectors_right, eigenvalues)
-        return np.linalg.solve(lhs_matrix, system_matrix)
-
     def _compute_spectral_components(self, system_matrix, reconstruct):
         eigenvalues_, eigenvectors_right_ = sort_eigenpairs(
             *np.linalg.eig(system_matrix)
-- 
2.43.0


From c42c8a388469e80ecf64e23c54c87c5aaace6735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 048/106] fix: OnlineDMD predicts after the initial batch;
 rejected data does not initialize the model

---
 datafold/dynfold/dmd.py | 54 +++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 4bca341..67e1be9 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2432,8 +2432,23 @@ class OnlineDMD(DMDBase):
             evals, right_evec = sort_eigenpairs(evals, right_evec)
             return evals, right_evec, None
 
+    def _update_spectral_system(self):
+        """Set up the spectral system if the model has processed enough samples."""
+        if self.ready_:
+            (
+                eigenvalues,
+                eigenvectors_right,
+                eigenvectors_left,
+            ) = self._compute_spectral_components()
+
+            self.setup_spectral_system(
+                eigenvectors_right=eigenvectors_right,
+                eigenvalues=eigenvalues,
+                eigenvectors_left=eigenvectors_left,
+            )
+
     def _basic_initialize(self, X) -> None:
-        """Initialize online DMD with a small ghost snapshot pairs before t=0."""
+        """Initialize online DMD with small ghost snapshot pairs before t=0."""
         self._validate_parameters()
         self._validate_and_setup_fit_attrs(X)
         n_states = X.shape[1]
@@ -2467,7 +2482,6 @@ class OnlineDMD(DMDBase):
             This function is not intended to be used directly. Use py:meth:`partial_fit` from
             the start (also initial fit).
         """
-        self._validate_and_setup_fit_attrs(X)
         self._validate_parameters()
         X = self._validate_datafold_data(X, ensure_tsc=True)
 
@@ -2476,6 +2490,14 @@ class OnlineDMD(DMDBase):
         # necessary condition for over-constrained initialization
         p = Xp.shape[0]
 
+        if p < X.shape[1]:
+            raise ValueError(
+                f"The batch must contain at least {X.shape[1]} (number of states) snapshot "
+                f"pairs. Got {p}."
+            )
+
+        self._validate_and_setup_fit_attrs(X)
+
         if self.weighting < 1:
             weights = np.power(np.sqrt(self.weighting), np.arange(p)[::-1])
             weights = if1dim_colvec(weights)
@@ -2494,12 +2516,7 @@ class OnlineDMD(DMDBase):
 
         self.timestep_ = p
 
-        if self.ready_:
-            (
-                self.eigenvalues_,
-                self.eigenvectors_right_,
-                self.eigenvectors_left_,
-            ) = self._compute_spectral_components()
+        self._update_spectral_system()
 
         return self
 
@@ -2542,15 +2559,17 @@ class OnlineDMD(DMDBase):
 
         if batch_fit and not is_fitted:
             return self.fit(X)
-        elif not is_fitted:
-            self._basic_initialize(X)
 
         self._validate_datafold_data(
             X,
             ensure_tsc=True,
             ensure_min_samples=2,
-            tsc_kwargs=dict(ensure_no_degenerate_ts=True),
+            tsc_kwargs=dict(ensure_no_degenerate_ts=True, ensure_const_delta_time=True),
         )
+
+        if not is_fitted:
+            self._basic_initialize(X)
+
         self._validate_delta_time(X.delta_time)
         self._validate_feature_names(X)
 
@@ -2582,17 +2601,6 @@ class OnlineDMD(DMDBase):
             # time step + 1
             self.timestep_ += 1
 
-        if self.ready_:
-            (
-                eigenvalues,
-                eigenvectors_right,
-                eigenvectors_left,
-            ) = self._compute_spectral_components()
-
-            self.setup_spectral_system(
-                eigenvectors_right=eigenvectors_right,
-                eigenvalues=eigenvalues,
-                eigenvectors_left=eigenvectors_left,
-            )
+        self._update_spectral_system()
 
         return self
-- 
2.43.0


From a80ed3aeebce0ab281947a323a746d8f42ec9e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 049/106] fix: score of DMD models with control, streaming and
 online DMD

---
 datafold/dynfold/dmd.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 67e1be9..ffae522 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -561,6 +561,7 @@ class PretrainedDMD(DMDBase):
         sys_type: Literal["flowmap", "differential"],
         sys_mode: Literal["spectral", "matrix"],
     ):
+        self._setup_default_tsc_metric_and_score()
         super().__init__(sys_type=sys_type, sys_mode=sys_mode)
 
     @classmethod
@@ -1622,6 +1623,7 @@ class DMDControl(DMDBase):
         **kwargs,
     ):
         self.rcond = rcond
+        self._setup_default_tsc_metric_and_score()
         super().__init__(
             sys_type="flowmap",
             sys_mode=sys_mode,
@@ -1800,6 +1802,7 @@ class gDMDAffine(DMDBase):
         self.diff_scheme = diff_scheme
         self.diff_accuracy = diff_accuracy
         self.rcond = rcond
+        self._setup_default_tsc_metric_and_score()
         super().__init__(
             sys_type="differential",
             sys_mode="matrix",
@@ -2108,6 +2111,7 @@ class StreamingDMD(DMDBase):
         self.max_rank = max_rank
         self.ngram = ngram
         self.incr_basis_tol = incr_basis_tol
+        self._setup_default_tsc_metric_and_score()
         super().__init__(sys_type="flowmap", sys_mode="spectral")
 
     def _gram_schmidt(self, xm, xp):
@@ -2397,6 +2401,7 @@ class OnlineDMD(DMDBase):
         self.weighting = weighting
         self.is_diagonalize = is_diagonalize
         self.with_warm_up = with_warm_up
+        self._setup_default_tsc_metric_and_score()
         super().__init__(sys_type="flowmap", sys_mode="spectral")
 
     def _validate_parameters(self):
-- 
2.43.0


From dd53f32d1f72012e17b2ac5afaa397ecfd5e9b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 050/106] fix: validation of the sampling interval for datetime
 time values

---
 datafold/dynfold/base.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index 4e9bac5..fe526ee 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -489,7 +489,7 @@ class TSCPredictMixin(TSCBase):
             # Series if dt_ is not the same for all time series in the data.
             raise NotImplementedError(
                 "Currently, all algorithms assume a constant time "
-                f"delta. Got {X.time_delta=}."
+                f"delta. Got {X.delta_time=}."
             )
 
         # TODO: check this closer why are there 5 decimals required?
@@ -691,10 +691,17 @@ class TSCPredictMixin(TSCBase):
                 "Currently, all methods require that dt_ is constant. "
             )
 
-        if np.abs(delta_time - self.dt_) > 1e-14:
+        if isinstance(delta_time, (np.timedelta64, pd.Timedelta)) or isinstance(
+            self.dt_, (np.timedelta64, pd.Timedelta)
+        ):
+            is_equal = delta_time == self.dt_
+        else:
+            is_equal = np.abs(delta_time - self.dt_) <= 1e-14
+
+        if not is_equal:
             raise TSCException(
                 f"delta_time during fit was {self.dt_=}, now it is {delta_time=} "
-                f"({np.abs(delta_time - self.dt_)=} with set tolerance 1e-14) "
+                f"(set tolerance 1e-14)."
             )
 
     def _validate_feature_names(
-- 
2.43.0


From 146918ac8dad920089976a50f0f531934764af55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 051/106] fix: initial fit of StreamingDMD with two samples
 only

---
 datafold/dynfold/dmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index ffae522..f27201a 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2259,7 +2259,7 @@ class StreamingDMD(DMDBase):
 
         # if the first time series continues, then its second sample also starts the next pair
         is_continued = X.index[0][0] in X.index[2:].get_level_values(0)
-        X_other = X.iloc[1:, :] if is_continued else X.iloc[2:, :]
+        X_other = X.iloc[1:, :] if is_continued else (X.iloc[2:, :] if len(X) > 2 else None)
 
         return X_init_fit, X_other
 
@@ -2317,7 +2317,7 @@ class StreamingDMD(DMDBase):
             self._validate_feature_names(X)
             self._validate_delta_time(X.delta_time)
 
-        if not X.empty:
+        if X is not None:
             (
                 Xm,
                 Xp,
-- 
2.43.0


From e9c14e21ce7002feb4b619faf293d7c6a318a91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 052/106] fix: StreamingDMD with a zero state in the snapshots

---
 datafold/dynfold/dmd.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index f27201a..7d5ed28 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2150,7 +2150,7 @@ class StreamingDMD(DMDBase):
     def _increase_basis(self, em, norm_m, ep, norm_p):
         # ---- Algorithm step 2 ----
         # check basis for x and expand, if necessary
-        if np.linalg.norm(em) / norm_m > self.incr_basis_tol:
+        if np.linalg.norm(em) > self.incr_basis_tol * norm_m:
             rx = self._Qx.shape[1]
             # update basis for x
             self._Qx = np.column_stack([self._Qx, em / np.linalg.norm(em)])
@@ -2161,7 +2161,7 @@ class StreamingDMD(DMDBase):
             self.A = np.block([self.A, np.zeros([self.A.shape[0], 1])])
 
         # check basis for y and expand if necessary
-        if np.linalg.norm(ep) / norm_p > self.incr_basis_tol:
+        if np.linalg.norm(ep) > self.incr_basis_tol * norm_p:
             ry = self._Qy.shape[1]
             # update basis for y
             self._Qy = np.column_stack([self._Qy, ep / np.linalg.norm(ep)])
@@ -2237,13 +2237,13 @@ class StreamingDMD(DMDBase):
         norm_s1 = np.linalg.norm(s1)
         norm_s2 = np.linalg.norm(s2)
 
-        self._Qx = if1dim_colvec(s1 / norm_s1)
-        self._Qy = if1dim_colvec(s2 / norm_s2)
+        # start with empty bases
+        n_states = X.shape[1]
+        self._Qx, self._Qy = np.zeros([n_states, 0]), np.zeros([n_states, 0])
+        self._Gx, self._Gy = np.zeros([0, 0]), np.zeros([0, 0])
+        self.A = np.zeros([0, 0])
 
-        # copy operations included to allocate new memory
-        self._Gx = np.atleast_2d(np.square(norm_s1)).copy()
-        self._Gy = np.atleast_2d(np.square(norm_s2)).copy()
-        self.A = np.atleast_2d(norm_s1 * norm_s2).copy()
+        self._update(s1, s2, norm_s1, norm_s2)
 
         return self
 
@@ -2330,14 +2330,15 @@ class StreamingDMD(DMDBase):
                 self._update(Xm[i, :], Xp[i, :], norm_m[i], norm_p[i])
 
         # required to perform predictions
-        (
-            eigenvectors_right,
-            eigenvalues,
-        ) = self._compute_spectral_components()
+        if self._Qx.shape[1] > 0:
+            (
+                eigenvectors_right,
+                eigenvalues,
+            ) = self._compute_spectral_components()
 
-        self.setup_spectral_system(
-            eigenvectors_right=eigenvectors_right, eigenvalues=eigenvalues
-        )
+            self.setup_spectral_system(
+                eigenvectors_right=eigenvectors_right, eigenvalues=eigenvalues
+            )
 
         return self
 
-- 
2.43.0


From d0ab97f54e55bd9fd5fded0d29056ab53fc90f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 053/106] fix: OnlineDMD continues to learn after an initial
 batch of deficient rank

---
 datafold/dynfold/dmd.py | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 7d5ed28..2a55445 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2453,21 +2453,24 @@ class OnlineDMD(DMDBase):
                 eigenvectors_left=eigenvectors_left,
             )
 
+    def _prior_scale(self, X) -> float:
+        """Scale of the matrix `P` in directions for which there is no data.
+
+        This corresponds to a prior that is small in comparison to the data, but large enough
+        that the rank-one downdates of the matrix `P` do not cancel out all digits.
+        """
+        epsilon = 1e-9 * np.mean(np.square(X.to_numpy()))
+        return 1.0 / epsilon if epsilon > 0 else 1e9
+
     def _basic_initialize(self, X) -> None:
         """Initialize online DMD with small ghost snapshot pairs before t=0."""
         self._validate_parameters()
         self._validate_and_setup_fit_attrs(X)
         n_states = X.shape[1]
 
-        # Prior of the recursion: small in comparison to the data, but large enough that the
-        # rank-one downdates of the matrix `P` (which starts with 1 / epsilon) do not cancel
-        # out all digits.
-        epsilon = 1e-9 * np.mean(np.square(X.to_numpy()))
-        alpha = 1.0 / epsilon if epsilon > 0 else 1e9
-
         # TODO: maybe provide random_state in __init__?
         self.A = np.random.default_rng(1).normal(size=(n_states, n_states))
-        self._P = alpha * np.identity(n_states)
+        self._P = self._prior_scale(X) * np.identity(n_states)
         self.timestep_ = 0
 
     @property
@@ -2493,15 +2496,8 @@ class OnlineDMD(DMDBase):
 
         Xm, Xp = X.tsc.shift_matrices(snapshot_orientation="row")
 
-        # necessary condition for over-constrained initialization
         p = Xp.shape[0]
 
-        if p < X.shape[1]:
-            raise ValueError(
-                f"The batch must contain at least {X.shape[1]} (number of states) snapshot "
-                f"pairs. Got {p}."
-            )
-
         self._validate_and_setup_fit_attrs(X)
 
         if self.weighting < 1:
@@ -2515,10 +2511,11 @@ class OnlineDMD(DMDBase):
         self.A = (np.linalg.pinv(Xmhat) @ Xphat).T
 
         # original np.linalg.inv(Xmhat @ Xmhat.T) / self.weighting
-        self._P = (
-            np.linalg.lstsq(Xmhat.T @ Xmhat, np.identity(X.shape[1]), rcond=0)[0]
-            / self.weighting
-        )
+        # Directions that are not contained in the batch get the same prior as in the
+        # initialization without batch.
+        gram_evals, gram_evecs = np.linalg.eigh(Xmhat.T @ Xmhat)
+        gram_evals = np.maximum(gram_evals, 1.0 / self._prior_scale(X))
+        self._P = (gram_evecs / gram_evals) @ gram_evecs.T / self.weighting
 
         self.timestep_ = p
 
-- 
2.43.0


From dcc83fcc61e4fce913245e87fb1d61209e224a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 054/106] fix: left eigenvectors of singular system matrices

---
 datafold/dynfold/dmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 2a55445..f1296b1 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -133,8 +133,8 @@ class DMDBase(
              * row-wise in returned matrix
 
         """
-        lhs_matrix = mat_dot_diagmat(eigenvectors_right, eigenvalues)
-        return np.linalg.solve(lhs_matrix, system_matrix)
+        # also defined if the system matrix has zero eigenvalues
+        return np.linalg.inv(eigenvectors_right)
 
     @property
     def dmd_modes(self):
-- 
2.43.0


From bc83cf4bbb850a511ddf794727abb7cc67c509bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 055/106] fix: StreamingDMD cuts off directions without
 information in the regression; left eigenvectors of given singular matrices

---
 datafold/dynfold/dmd.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index f1296b1..2acbffb 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -42,9 +42,7 @@ def compute_spectral_components(system_matrix, is_diagonalize):
         #     The left eigenvectors are
         #          * not normed
         #          * row-wise in returned matrix
-        eigenvectors_left = np.linalg.solve(
-            mat_dot_diagmat(eigenvectors_right, eigenvalues), system_matrix
-        )
+        eigenvectors_left = np.linalg.inv(eigenvectors_right)
     else:
         eigenvectors_left = None
 
@@ -2267,7 +2265,7 @@ class StreamingDMD(DMDBase):
         # original: self.Qx.T @ self.Qy @ self.A @ np.linalg.pinv(self.Gx)
         # here I write it specifically as a linear regression
         # return self.Qx.T @ self.Qy @ self.A @ np.linalg.pinv(self.Gx)
-        return np.linalg.lstsq(self._Gx.T, (self._Qx.T @ self._Qy @ self.A).T, rcond=0)[
+        return np.linalg.lstsq(self._Gx.T, (self._Qx.T @ self._Qy @ self.A).T, rcond=None)[
             0
         ].T
 
-- 
2.43.0


From ebd3bba364d520f8b6631e90cf171f1ab7da663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 056/106] fix: series order of time delay embedding and moving
 average; the control input could not be matched

---
 datafold/dynfold/transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index ba9d9e6..23a4864 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -810,7 +810,9 @@ class TSCTakensEmbedding(BaseEstimator, TSCTransformerMixin):
         else:
             kappa_vec = None
 
-        for idx, (_, df) in enumerate(X.groupby(TSCDataFrame.tsc_id_idx_name)):
+        for idx, (_, df) in enumerate(
+            X.groupby(TSCDataFrame.tsc_id_idx_name, sort=False)
+        ):
             # use time series numpy block
             time_series_numpy = df.to_numpy()
 
@@ -1074,7 +1076,7 @@ class TSCMovingAverage(BaseEstimator, TSCTransformerMixin):
 
         X_new = (
             pd.DataFrame(X)
-            .groupby(TSCDataFrame.tsc_id_idx_name)
+            .groupby(TSCDataFrame.tsc_id_idx_name, sort=False)
             .rolling(window=self.window)
             .mean()
             .dropna()
-- 
2.43.0


From 027db7ba3670dd7e9c217b50850c5213962f8277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 057/106] fix: tolerance of time values in predictions relative
 to the sampling interval

---
 datafold/dynfold/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index fe526ee..760be15 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -548,7 +548,9 @@ class TSCPredictMixin(TSCBase):
                 np.timedelta64(0, "ns") if isinstance(reference, np.datetime64) else 0
             )
         else:
-            _numerical_tol = 1e-14
+            _numerical_tol = max(
+                1e-14, 1e-8 * float(dt), 4 * np.finfo(float).eps * abs(float(reference))
+            )
 
         if time_values is None:
             if is_controlled:
-- 
2.43.0


From b3c8d9863de233a8b42e0cdb88ac7790f1113840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 058/106] fix: EDMD with control-affine model requires the last
 control state

---
 datafold/appfold/edmd.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index e08a3bf..7ddee4a 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -317,6 +317,11 @@ class EDMD(
         # '_dmd_model' instead of general '_final_estimator'
         return self._final_estimator
 
+    @property
+    def _requires_last_control_state(self) -> bool:
+        # whether the time horizon of the control input includes the last state
+        return getattr(self.dmd_model, "_requires_last_control_state", False)
+
     @property
     def koopman_modes(self):
         check_is_fitted(self, attributes=["_koopman_modes"])
@@ -1193,7 +1198,9 @@ class EDMD(
                     U,
                     control_names=self.control_names_in_,
                     dt=self.dt_,
-                    time_values=time_values[:-1],
+                    time_values=time_values
+                    if self._requires_last_control_state
+                    else time_values[:-1],
                     ts_id=int(X.ids[0]) if isinstance(X, TSCDataFrame) else None,
                 )
             elif isinstance(U, TSCDataFrame):
-- 
2.43.0


From 3a1883618df618db60dbb1536ddd499a641af8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 059/106] fix: projection matrix ignores the order of the
 selected features

---
 datafold/utils/general.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datafold/utils/general.py b/datafold/utils/general.py
index a94b387..df64857 100644
--- a/datafold/utils/general.py
+++ b/datafold/utils/general.py
@@ -237,9 +237,10 @@ def projection_matrix_from_feature_names(
     scipy.sparse.csr_matrix
         projection matrix
     """
-    project_indices = np.where(np.isin(features_all, features_select))[0]
+    features_all = pd.Index(features_all)
+    project_indices = features_all.get_indexer(pd.Index(features_select))
 
-    if len(project_indices) != len(features_select):
+    if (project_indices < 0).any():
         raise ValueError(
             "Not all features from 'feature_select' are contained in 'features_all'."
         )
-- 
2.43.0


From 15c7a39b0d08ada87eb74e021cb55ee7f75f384d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 060/106] fix: EDMD.transform of numpy arrays: number and type
 of time values

---
 datafold/appfold/edmd.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index 7ddee4a..d109909 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1444,10 +1444,16 @@ class EDMD(
             if `n_samples_ic_ > 1`.
         """
         if isinstance(X, np.ndarray):
+            # not "np.arange(0, n * dt, dt)", which can have n + 1 values for float "dt"
+            time_values = self.dt_ * np.arange(X.shape[0])
+
+            if isinstance(self.dt_, np.timedelta64):
+                time_values = np.datetime64(0, "ns") + time_values
+
             X = TSCDataFrame.from_array(
                 X,
                 feature_names=self.feature_names_in_,
-                time_values=np.arange(0, self.dt_ * X.shape[0], self.dt_),
+                time_values=time_values,
             )
 
         if self.include_id_state:
-- 
2.43.0


From fb911275c77eada3a7512d098fdf2b9d385578ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 061/106] fix: EDMD.partial_fit: states that are not preserved
 in the dictionary

---
 datafold/appfold/edmd.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index d109909..ec50da9 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1382,17 +1382,16 @@ class EDMD(
         fit_params = self._check_fit_params(**fit_params or {})
         dmd_fit_params = fit_params.pop("dmd", None)
 
+        self._validate_dictionary()
         X_dict = self._partial_fit(X, y, **fit_params)
 
         if initial_fit:
-            self.dict_preserves_id_state_ = self._validate_dictionary()
-
-        if initial_fit:
+            self.dict_preserves_id_state_ = self._set_dict_preserves_id_state(X_dict)
             self.n_samples_ic_ = self._compute_n_samples_ic(X, X_dict)
 
         if self.include_id_state and not self.dict_preserves_id_state_:
             X_dict = self._attach_id_state(X=X, X_dict=X_dict)
-        elif not self.include_id_state and not not self.dict_preserves_id_state_:
+        elif not self.include_id_state and not self.dict_preserves_id_state_:
             raise NotImplementedError(
                 "Currently, there is no implementation to partial_fit non-trivial update of "
                 "the modes. Either the dictionary must preserve the id states or "
-- 
2.43.0


From 2598333cc339a5ad4a6b79ed402ccc08083d047b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 062/106] fix: expand_time_values assigns the values to the
 wrong time series if the IDs are not sorted

---
 datafold/pcfold/timeseries/accessor.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index b7e616c..95d1528 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -548,11 +548,15 @@ class TSCAccessor:
                 mode="constant",
                 constant_values=fill_value,
             )
-            return TSCDataFrame.from_tensor(
-                tensor=tensor_data,
-                time_series_ids=self._tsc_df.ids,
-                time_values=new_time_values,
-                feature_names=self._tsc_df.columns,
+            # keep the order of the time series (note that ".ids" are sorted)
+            ids = self._tsc_df.index.get_level_values(TSCDataFrame.tsc_id_idx_name)
+            new_index = pd.MultiIndex.from_product(
+                [ids.unique(), new_time_values], names=self._tsc_df.index.names
+            )
+            return TSCDataFrame(
+                tensor_data.reshape(-1, self._tsc_df.n_features),
+                index=new_index,
+                columns=self._tsc_df.columns,
             )
 
     def shift_time_per_time_series(
-- 
2.43.0


From 2a37cf6efb695f99f6a928bc5f0894661bd9eb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 063/106] fix: EDMD.inverse_transform with attached states by
 the inverse of the dictionary

---
 datafold/appfold/edmd.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index ec50da9..2c9a921 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1593,6 +1593,11 @@ class EDMD(
             # inverse_transform the pipeline because an inverse linear map is not
             # available.
             X_ts = X
+
+            if self.include_id_state and not self.dict_preserves_id_state_:
+                # the attached states are not part of the dictionary transformations
+                X_ts = X_ts.iloc[:, self.n_features_in_ :]
+
             reverse_iter = reversed(list(self._iter(with_final=False)))
             for _, _, tsc_transform in reverse_iter:
                 X_ts = tsc_transform.inverse_transform(X_ts)
-- 
2.43.0


From 14439a0258b989dc989ea1d33e576fb51139fd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 064/106] fix: EDMD prediction with control input and inverse
 transform of the dictionary

---
 datafold/appfold/edmd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index 2c9a921..62e9b6f 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -862,7 +862,10 @@ class EDMD(
 
         else:
             # predict all EDMD-dictionary time series
-            X_ts = self.dmd_model.predict(X_dict, time_values=time_values)
+            dmd_params = dict(U=U, time_values=time_values)
+            dmd_params = {k: v for k, v in dmd_params.items() if v is not None}
+
+            X_ts = self.dmd_model.predict(X_dict, **dmd_params)
 
             # transform from EDMD-dictionary space by pipeline inverse_transform
             X_ts = self.inverse_transform(X_ts)
-- 
2.43.0


From f65aedadf436206461b15ebc5d534aee699d17c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 065/106] fix: EDMD stepwise prediction with many initial
 conditions, time delays or control input

---
 datafold/appfold/edmd.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index 62e9b6f..142de20 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -883,22 +883,22 @@ class EDMD(
             raise NotImplementedError(
                 "stepwise transform with state transition map is not implemented yet"
             )
-            extract_id_columns = self.feature_names_in_
-        else:
-            extract_id_columns = None
 
         X = X.tsc.expand_time_values(time_values=time_values[1:])
         all_time_values = X.time_values()
 
+        def _select_times(df, times):
+            # in contrast to ".loc" this keeps the order of the time series
+            df_times = df.index.get_level_values(TSCDataFrame.tsc_time_idx_name)
+            return df.loc[df_times.isin(times), :]
+
         for i in range(self.n_samples_ic_, len(time_values) + self.n_samples_ic_ - 1):
             current_ic_time = all_time_values[i - self.n_samples_ic_ : i]
-            assert current_ic_time[-1] == time_values[i - self.n_samples_ic_]
-            _X_current = X.loc[
-                pd.IndexSlice[:, current_ic_time], slice(extract_id_columns)
-            ]
+            _X_current = _select_times(X, current_ic_time)
 
             if U is not None:
-                _U_current = U.loc[pd.IndexSlice[:, current_ic_time], :]
+                # the control input acts on the current (last) state
+                _U_current = _select_times(U, current_ic_time[-1:])
             else:
                 _U_current = None
 
@@ -920,7 +920,7 @@ class EDMD(
             X = X.loc[:, qois]
 
         if self.n_samples_ic_ > 1:
-            X = X.loc[pd.IndexSlice[:, time_values], :]
+            X = _select_times(X, all_time_values[self.n_samples_ic_ - 1 :])
 
         return X
 
-- 
2.43.0


From 10b3faf73df923895b6ab8d9810c5734f2cb2d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:48 +0000
Subject: [PATCH 066/106] fix: EDMD stepwise prediction at the initial time
 only

---
 datafold/appfold/edmd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index 142de20..3fd3261 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -884,7 +884,8 @@ class EDMD(
                 "stepwise transform with state transition map is not implemented yet"
             )
 
-        X = X.tsc.expand_time_values(time_values=time_values[1:])
+        if len(time_values) > 1:
+            X = X.tsc.expand_time_values(time_values=time_values[1:])
         all_time_values = X.time_values()
 
         def _select_times(df, times):
-- 
2.43.0


From 63238019c4de07ce0f32a51d1ead279b98f214f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:30 +0000
Subject: [PATCH 067/106] fix: EDMD reconstruction assigns wrong times to
 series, changes its input and cannot use control input; score of several
 groups

---
 datafold/appfold/edmd.py | 150 +++++++++++++++++++++------------------
 1 file changed, 82 insertions(+), 68 deletions(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index 3fd3261..106c8c0 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -86,6 +86,7 @@ from datafold.dynfold.base import (
 )
 from datafold.dynfold.dictlearning import DMDDictLearning
 from datafold.pcfold import InitialCondition, TSCDataFrame, TSCKfoldSeries, TSCKFoldTime
+from datafold.pcfold.timeseries.collection import TSCException
 from datafold.pcfold.timeseries.metric import TSCCrossValidationSplit
 from datafold.utils.general import (
     df_type_and_indices_from,
@@ -716,21 +717,29 @@ class EDMD(
 
     def _reconstruct(self, X: TSCDataFrame, U: Optional[TSCDataFrame], qois):
         X_reconstruct = []
-
-        if self.dmd_model.is_time_invariant and not X.is_datetime_index():
+        orig_X = X
+
+        # The time of each time series is normalized, so that as many time series as
+        # possible share their time values (vectorized prediction). This is not possible
+        # with control input, which refers to the original time values.
+        normalize_time = (
+            U is None
+            and self.dmd_model.is_time_invariant
+            and not X.is_datetime_index()
+            and not isinstance(X.delta_time, pd.Series)
             # TODO: support for datetime_index requires implementation.
-            orig_index = X.index.copy(deep=True)
+        )
+
+        if normalize_time:
+            X = X.copy(deep=True)  # the time is shifted inplace
             X = X.tsc.shift_time_per_time_series(ensure_identical_values=True)
-            normalized_time = True
-        else:
-            normalized_time = False
 
         for X_ic, time_values in InitialCondition.iter_reconstruct_ic(
             X, n_samples_ic=self.n_samples_ic_
         ):
             if U is not None:
-                U_select = U.loc[pd.IndexSlice[X_ic.ids, :], :]
-                InitialCondition.validate_control(X_ic, U)
+                U_select = self._select_control(U, X_ic, time_values)
+                InitialCondition.validate_control(X_ic, U_select)
             else:
                 U_select = None
 
@@ -749,33 +758,45 @@ class EDMD(
 
         X_reconstruct = pd.concat(X_reconstruct, axis=0)
 
-        if normalized_time:
-            # TODO: this can maybe be done better if it becomes in some scenario too
-            #  expensive
-            X.index = orig_index
+        if normalize_time:
+            # recover the original time values; note that the time series are not
+            # necessarily in the same order as in X
+            group_ids = lambda df: df.groupby(
+                TSCDataFrame.tsc_id_idx_name, sort=False
+            ).indices
+            orig_positions = group_ids(orig_X)
+            recovered_index = np.empty(X_reconstruct.shape[0], dtype=int)
 
-            if self.n_samples_ic_ > 1:
-
-                def _apply(df):
-                    # drop n instances of index and reset for X_reconstruct
-                    return (
-                        df.index[self.n_samples_ic_ - 1 :]
-                        .to_frame()
-                        .reset_index(drop=True)
-                    )
-
-                recovered_index = X.groupby(TSCDataFrame.tsc_id_idx_name).apply(_apply)
-                recovered_index = pd.MultiIndex.from_frame(recovered_index)
-            else:
-                recovered_index = orig_index
+            for _id, positions in group_ids(X_reconstruct).items():
+                recovered_index[positions] = orig_positions[_id][
+                    self.n_samples_ic_ - 1 :
+                ]
 
-            X_reconstruct = X_reconstruct.set_index(recovered_index)
+            X_reconstruct.index = orig_X.index[recovered_index]
 
         # NOTE: time series contained in X_reconstruct can be shorter than
         # the original time series (i.e. no full reconstruction), because some transform
         # models drop samples (e.g. time delay embeddings or finite differences)
         return X_reconstruct
 
+    def _select_control(self, U: TSCDataFrame, X_ic: TSCDataFrame, time_values):
+        """Select the control input required to predict all `time_values`."""
+        if not self._requires_last_control_state:
+            time_values = time_values[:-1]
+
+        ids = X_ic.index.get_level_values(TSCDataFrame.tsc_id_idx_name).unique()
+        required_index = pd.MultiIndex.from_product(
+            [ids, time_values], names=X_ic.index.names
+        )
+
+        if not required_index.isin(U.index).all():
+            raise TSCException(
+                "The control input must contain all samples that are required to "
+                "reconstruct the time series."
+            )
+
+        return U.loc[required_index, :]
+
     def _predict_dict_ic(
         self, X_dict: TSCDataFrame, U, time_values, qois
     ) -> TSCDataFrame:
@@ -1564,7 +1585,9 @@ class EDMD(
             # time series initial conditions is included in the predict method.
         )
         self._validate_feature_names(X=X, U=U)
-        self._validate_qois(qois=qois, valid_feature_names=self.feature_names_pred_)
+        qois = self._validate_qois(
+            qois=qois, valid_feature_names=self.feature_names_pred_
+        )
 
         return self._reconstruct(X=X, U=U, qois=qois)
 
@@ -1647,11 +1670,11 @@ class EDMD(
         # does all the checks:
         X_reconstruct = self.reconstruct(X=X, U=U)
 
-        if self.n_samples_ic_ > 1:
-            # Note that during `reconstruct` samples can be discarded (e.g. when
-            # applying time delay embedding). In the latent space there are then less
-            # samples than in the full-state, which is corrected here:
-            X = X.loc[X_reconstruct.index, :]
+        # Note that during `reconstruct` samples can be discarded (e.g. when
+        # applying time delay embedding). In the latent space there are then less
+        # samples than in the full-state, which is corrected here. Furthermore, the
+        # time series are not necessarily in the same order.
+        X = X.loc[X_reconstruct.index, :]
 
         return self._score_eval(X, X_reconstruct, sample_weight)
 
@@ -2221,27 +2244,20 @@ class EDMDWindowPrediction:
         )
 
         if is_controlled:
-            U = edmd._validate_datafold_data(
-                U,
-                ensure_tsc=True,
-                tsc_kwargs=dict(
-                    ensure_const_delta_time=True, ensure_delta_time=edmd.dt_
-                ),
-            )
+            U = edmd._validate_datafold_data(U, ensure_tsc=True)
 
         qois = edmd._validate_qois(
             qois=qois, valid_feature_names=edmd.feature_names_pred_
         )
 
-        X_windows = TSCDataFrame.from_frame_list(
-            list(
-                X.tsc.iter_timevalue_window(
-                    window_size=edmd.window_size,
-                    offset=offset,
-                    per_time_series=True,
-                )
+        window_list = list(
+            X.tsc.iter_timevalue_window(
+                window_size=edmd.window_size,
+                offset=offset,
+                per_time_series=True,
             )
         )
+        X_windows = TSCDataFrame.from_frame_list(window_list)
 
         n_timesteps = X_windows.n_timesteps
         assert isinstance(n_timesteps, int) and n_timesteps == edmd.window_size
@@ -2269,29 +2285,20 @@ class EDMDWindowPrediction:
 
         if is_controlled:
             assert U is not None  # for mypy typing
+
+            # select the control input between the last state of the initial condition
+            # and the last state of each window
             U_windows = TSCDataFrame.from_frame_list(
-                list(
-                    U.tsc.iter_timevalue_window(
-                        window_size=edmd.window_size,
-                        offset=offset,
-                        per_time_series=True,
+                [
+                    edmd._select_control(
+                        U,
+                        X_ic=window.initial_states(edmd.n_samples_ic_),
+                        time_values=window.time_values()[edmd.n_samples_ic_ - 1 :],
                     )
-                )
+                    for window in window_list
+                ]
             )
 
-            group = lambda df: df.groupby(TSCDataFrame.tsc_id_idx_name)
-
-            # remove last state, because it is not needed for the prediction
-            U_windows = group(U_windows).head(edmd.window_size - 1)
-            U_n_timesteps = U_windows.n_timesteps
-            assert (
-                isinstance(U_n_timesteps, int) and U_n_timesteps == edmd.window_size - 1
-            )
-
-            # remove first states that are not needed during initial condition
-            drop_indices = group(U_windows).head(edmd.n_samples_ic_ - 1).index
-            U_windows = U_windows.drop(drop_indices, axis=0, errors="ignore")
-
             if return_windows:
                 index_final_windows_U = U_windows.index.copy()
             else:
@@ -2321,7 +2328,9 @@ class EDMDWindowPrediction:
         else:
             return X_reconstruct
 
-    def _window_score(self, X, y=None, sample_weight=None, qois=None, edmd=None):
+    def _window_score(
+        self, X, y=None, sample_weight=None, qois=None, U=None, edmd=None
+    ):
         """Score of reconstructed windowed time series collection.
 
         This method can overwrite the default score method of an EDMD model. In this
@@ -2341,6 +2350,9 @@ class EDMDWindowPrediction:
             If not None, this argument is passed as ``sample_weight`` keyword
             argument to the internal ``score`` method.
 
+        U
+            Control time series. Only required if the model was fit with control.
+
         edmd
             The EDMD model to apply the score function to.
 
@@ -2351,7 +2363,9 @@ class EDMDWindowPrediction:
 
         """
         # does all the checks:
-        X_reconstruct, X = edmd.reconstruct(X=X, y=y, qois=qois, return_windows=True)
+        X_reconstruct, X = edmd.reconstruct(
+            X=X, U=U, y=y, qois=qois, return_windows=True
+        )[:2]
 
         if qois is None:
             X_reconstruct = X_reconstruct.loc[:, X.columns]
-- 
2.43.0


From e9ed6c5949be1e266669c114f6f8bc2c600e6474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:30 +0000
Subject: [PATCH 068/106] fix: DMD score if the reconstructed series are in
 another order

---
 datafold/dynfold/dmd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 2acbffb..cf92950 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -550,7 +550,8 @@ class DMDBase(
         self._check_attributes_set_up(check_attributes=["_score_eval"])
 
         X_est_ts = self.reconstruct(X, U=U)  # does all the validation checks
-        return self._score_eval(X, X_est_ts, sample_weight)
+        # the time series are not necessarily in the same order
+        return self._score_eval(X.loc[X_est_ts.index, :], X_est_ts, sample_weight)
 
 
 class PretrainedDMD(DMDBase):
-- 
2.43.0


From b46da10609e3b6a8351566c90eced479a25c9157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 069/106] fix: distance algorithms reuse the tree of other
 reference points

---
 datafold/pcfold/distance.py | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index 22ad4ba..ecccbca 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -187,6 +187,11 @@ class DistanceAlgorithm(metaclass=abc.ABCMeta):
                 )
         return X, Y, is_pdist
 
+    @staticmethod
+    def _is_same_data(X, X_fit):
+        # whether a search structure was built with the same reference points
+        return X.shape == X_fit.shape and np.array_equal(X, X_fit)
+
     def _validate_metric(self, valid, metric):
         if metric not in valid:
             raise ValueError(
@@ -624,8 +629,13 @@ class RDist(DistanceAlgorithm):
 
         radius = self._adapt_radius()
 
-        if is_pdist or not hasattr(self, "rdist_"):
+        if (
+            is_pdist
+            or not hasattr(self, "rdist_")
+            or not self._is_same_data(X, self._X_rdist)
+        ):
             self.rdist_ = rdist.Rdist(X, **self.backend_options)
+            self._X_rdist = np.array(X, copy=True)
 
         if is_pdist:
             distance_matrix = self.rdist_.sparse_pdist(
@@ -717,8 +727,13 @@ class ScipyKdTreeDist(DistanceAlgorithm):
         """
         X, Y, is_pdist = self._validate_X_Y(X, Y)
 
-        if is_pdist or not hasattr(self, "kdtree_x_"):
+        if (
+            is_pdist
+            or not hasattr(self, "kdtree_x_")
+            or not self._is_same_data(X, self._X_kdtree)
+        ):
             self.kdtree_x_ = scipy.spatial.cKDTree(X, **self.backend_options)
+            self._X_kdtree = np.array(X, copy=True)
 
         if is_pdist:
             distance_matrix = self.kdtree_x_.sparse_distance_matrix(
@@ -727,10 +742,6 @@ class ScipyKdTreeDist(DistanceAlgorithm):
                 output_type="coo_matrix",
             )
         else:
-            if not hasattr(self, "kdtree_x_"):
-                # else reuse from pdist call
-                self.kdtree_x_ = scipy.spatial.cKDTree(X, **self.backend_options)
-
             kdtree_y = scipy.spatial.cKDTree(Y, **self.backend_options)
 
             distance_matrix = kdtree_y.sparse_distance_matrix(
@@ -826,8 +837,13 @@ class SklearnBalltreeDist(DistanceAlgorithm):
         """
         X, Y, is_pdist = self._validate_X_Y(X, Y)
 
-        if is_pdist or not hasattr(self, "nn_"):
+        if (
+            is_pdist
+            or not hasattr(self, "nn_")
+            or not self._is_same_data(X, self._X_nn)
+        ):
             self.nn_ = self._fit_nearest_neighbor(X)
+            self._X_nn = np.array(X, copy=True)
 
         if is_pdist:
             distance_matrix = self.nn_.radius_neighbors_graph(mode="distance")
@@ -859,7 +875,11 @@ class SklearnKNN(DistanceAlgorithm):
     def __call__(self, X, Y=None):
         X, Y, is_pdist = self._validate_X_Y(X, Y=Y)
 
-        if is_pdist or not hasattr(self, "nn_"):
+        if (
+            is_pdist
+            or not hasattr(self, "nn_")
+            or not self._is_same_data(X, self._X_nn)
+        ):
             self.nn_ = KNeighborsTransformer(
                 mode="distance",
                 n_neighbors=self.k,
@@ -867,6 +887,7 @@ class SklearnKNN(DistanceAlgorithm):
                 **self.backend_options,
             )
             self.nn_.fit(X)
+            self._X_nn = np.array(X, copy=True)
 
         if is_pdist:
             # here, the connection to self is not computed (but inserted below)
-- 
2.43.0


From b396e43d952fe551e941a5e5e3125af918bd81e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 070/106] fix: minimum number of neighbours of dense and
 squared Euclidean distance matrices

---
 datafold/pcfold/distance.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index ecccbca..72b8220 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -328,6 +328,9 @@ class DistanceAlgorithm(metaclass=abc.ABCMeta):
             nnz_distance_mask = (distances != 0).astype(bool)
             distances = distances[nnz_distance_mask]
 
+            if metric == "sqeuclidean":
+                distances = np.square(distances)
+
             knn_query_indices = np.repeat(knn_query_indices, kmin)[nnz_distance_mask]
 
             columns_indices = np.reshape(
@@ -375,7 +378,9 @@ class DistanceAlgorithm(metaclass=abc.ABCMeta):
         )
 
         # only for the sparse case we care about kmin:
-        apply_kmin_procedure = self.kmin is not None and (
+        apply_kmin_procedure = (
+            self.kmin is not None and scipy.sparse.issparse(distance_matrix)
+        ) and (
             (self.kmin > 0 and not is_pdist) or (self.kmin > 1 and is_pdist)
         )
 
-- 
2.43.0


From 57106fd1b429e91f246be59ae20b31b2d26d7e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 071/106] fix: k-nearest-neighbour distance algorithm by name

---
 datafold/pcfold/distance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index 72b8220..4838537 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -1080,6 +1080,7 @@ def init_distance_algorithm(
         "metric": metric,
         "cut_off": cut_off,
         "kmin": k,
+        "k": k,
         "backend_options": backend_options,
     }
     keys = deepcopy(list(kwargs.keys()))
-- 
2.43.0


From 2b4f5bfaf05966435ed18f5366b6cd5610d65d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 072/106] fix: k-nearest-neighbour distances fail after a
 rejected call

---
 datafold/pcfold/distance.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index 4838537..acd1b23 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -890,8 +890,7 @@ class SklearnKNN(DistanceAlgorithm):
                 n_neighbors=self.k,
                 metric=self.metric,
                 **self.backend_options,
-            )
-            self.nn_.fit(X)
+            ).fit(X)
             self._X_nn = np.array(X, copy=True)
 
         if is_pdist:
-- 
2.43.0


From 0e8539d079db5158489755731854e9b3ba3651d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 073/106] fix: density normalization of the landmark kernel

---
 datafold/pcfold/kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 55aed25..e8627e7 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -1777,7 +1777,7 @@ class RoselandKernel(PCManifoldKernel):
         return obj.A1 if is_sparse else obj
 
     def _normalize_density(self, kernel_matrix, is_fit):
-        is_sparse = scipy.sparse.spmatrix(kernel_matrix)
+        is_sparse = scipy.sparse.issparse(kernel_matrix)
 
         if is_fit:
             landmark_density = self._cast_array(kernel_matrix.sum(axis=0), is_sparse)
@@ -1788,9 +1788,9 @@ class RoselandKernel(PCManifoldKernel):
 
         normalized_kernel_matrix = _symmetric_matrix_division(
             kernel_matrix,
-            vec=data_density,
+            vec=np.power(data_density, self.alpha),
             is_symmetric=False,
-            vec_right=landmark_density,
+            vec_right=np.power(landmark_density, self.alpha),
         )
 
         return normalized_kernel_matrix, landmark_density
-- 
2.43.0


From a449fd835db430e833f38a9471539ef7cff18e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 074/106] fix: thinplate kernel on sparse distance matrices

---
 datafold/pcfold/kernels.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index e8627e7..15fb384 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -981,7 +981,12 @@ class ThinplateKernel(RadialBasisKernel):
         kernel_matrix = _apply_kernel_function_numexpr(
             distance_matrix, expr="D**2 * log(D)"
         )
-        kernel_matrix[np.isnan(kernel_matrix)] = 0
+
+        # the kernel of duplicate points is zero (but 0 * log(0) evaluates to nan)
+        if scipy.sparse.issparse(kernel_matrix):
+            kernel_matrix.data[np.isnan(kernel_matrix.data)] = 0
+        else:
+            kernel_matrix[np.isnan(kernel_matrix)] = 0
         return kernel_matrix
 
 
-- 
2.43.0


From 6e86afe51ca073a7baa944372b80ac73241eac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 075/106] fix: kernels change the distance options of the user

---
 datafold/pcfold/kernels.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 15fb384..8324384 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -702,6 +702,7 @@ class RadialBasisKernel(PCManifoldKernel, metaclass=abc.ABCMeta):
             if distance.metric != required_metric:
                 raise _metric_mismatch
         elif isinstance(distance, dict):
+            distance = dict(distance)
             _exist_metric = distance.pop("metric", None)
 
             if _exist_metric is None or _exist_metric == required_metric:
@@ -1110,7 +1111,7 @@ class ContinuousNNKernel(PCManifoldKernel):
             self.k_neighbor = int(k_neighbor)
 
         if distance is None or isinstance(distance, dict):
-            distance = distance or {}
+            distance = dict(distance or {})
             distance.setdefault("kmin", self.k_neighbor)
             distance.setdefault("metric", "euclidean")
             distance = init_distance_algorithm(backend="guess_optimal", **distance)
@@ -2064,7 +2065,7 @@ class ConeKernel(TSCManifoldKernel):
         self.epsilon = epsilon
         self.fd_accuracy = fd_accuracy
 
-        distance = distance or {}
+        distance = dict(distance or {})
 
         distance.setdefault("metric", "sqeuclidean")
 
-- 
2.43.0


From 1bc6adc9ef7fbb168d0b69bc21b2b0b09361b5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 076/106] fix: minimum number of neighbours in the distance
 options

---
 datafold/pcfold/distance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index acd1b23..9ed45b8 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -1075,10 +1075,14 @@ def init_distance_algorithm(
 
     backend_init_args = inspect.signature(backend_class).parameters.keys()
 
+    # both names are used for the minimum number of neighbors
+    kmin = backend_options.pop("kmin", None)
+    kmin = k if kmin is None else kmin
+
     kwargs = {
         "metric": metric,
         "cut_off": cut_off,
-        "kmin": k,
+        "kmin": kmin,
         "k": k,
         "backend_options": backend_options,
     }
-- 
2.43.0


From 43793397e43279e5d2a5671e22710d4373ae7993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 077/106] fix: distance algorithm of the continuous nearest
 neighbour kernel

---
 datafold/pcfold/kernels.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 8324384..62169b2 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -1118,18 +1118,21 @@ class ContinuousNNKernel(PCManifoldKernel):
         elif isinstance(distance, DistanceAlgorithm) and distance.dist_type == "knn":
             if distance.k < self.k_neighbor:
                 raise ValueError(
-                    f"{self.distance=} must have at least {self.k_neighbor=} neighbors"
+                    f"{distance=} must have at least {self.k_neighbor=} neighbors"
                 )
         elif (
             isinstance(distance, DistanceAlgorithm) and distance.dist_type == "range-nn"
         ):
-            if distance.kmin < self.k_neighbor:
+            if (
+                not np.isinf(distance.cut_off)
+                and (distance.kmin or 0) < self.k_neighbor
+            ):
                 raise ValueError(
-                    f"{self.distance=} must assure that each point has at least "
+                    f"{distance=} must assure that each point has at least "
                     f"{self.k_neighbor=} neighbors (set kmin)"
                 )
         else:
-            raise TypeError(f"{type(self.distance)=} not understood")
+            raise TypeError(f"{type(distance)=} not understood")
         self.distance = distance
         self.reference_dist_knn_: np.ndarray
         super().__init__(distance=distance)
-- 
2.43.0


From f794462fa9ba71b6ce80e77e548cc6bac2426a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 078/106] fix: continuous nearest neighbour kernel overwrites
 the distance matrix

---
 datafold/pcfold/kernels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 62169b2..bef426f 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -1236,8 +1236,9 @@ class ContinuousNNKernel(PCManifoldKernel):
 
         dist_knn = _kth_nearest_neighbor_dist(distance_matrix, self.k_neighbor)
 
+        # copy because the division is in-place
         distance_factors = _symmetric_matrix_division(
-            distance_matrix,
+            distance_matrix.copy(),
             vec=np.sqrt(dist_knn),
             is_symmetric=self.distance.is_symmetric,
             vec_right=np.sqrt(self.reference_dist_knn_) if not is_pdist else None,
-- 
2.43.0


From 5a84099a0e240057bf739fd532b1f318b9d9ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 079/106] fix: cone kernel takes the cosine of the cosine

---
 datafold/pcfold/kernels.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index bef426f..53ef8e3 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -2185,12 +2185,11 @@ class ConeKernel(TSCManifoldKernel):
 
             # special handling of (almost) duplicates -> denominator by zero leads to nan
             zero_mask = np.less_equal(denominator, 1e-14, out=zero_mask)
-            cos_matrix[row_idx, zero_mask] = 0.0  # -> np.cos(0) = 1 later
+            cos_matrix[row_idx, zero_mask] = 0.0
             cos_matrix[row_idx, ~zero_mask] /= denominator[~zero_mask]
 
         # memory and cache efficient solving with no intermediate memory allocations:
-        # cos_matrix = 1 - self.zeta * np.square(np.cos(cos_matrix))
-        cos_matrix = np.cos(cos_matrix, out=cos_matrix)
+        # cos_matrix = 1 - self.zeta * np.square(cos_matrix)
         cos_matrix = np.square(cos_matrix, out=cos_matrix)
         cos_matrix = np.multiply(self.zeta, cos_matrix, out=cos_matrix)
         cos_matrix = np.subtract(1.0, cos_matrix, out=cos_matrix)
-- 
2.43.0


From 16b0ebcf2862803cfb677e697ef2b36e6571d696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 080/106] fix: cone kernel uses the vector field of other
 reference points

---
 datafold/pcfold/kernels.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 53ef8e3..6f15022 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -2238,14 +2238,7 @@ class ConeKernel(TSCManifoldKernel):
         delta_time = self._validate_parameter(X, Y)
         is_pdist = Y is None
 
-        compute_attributes = is_pdist or (
-            not hasattr(self, "timederiv_X_") or not hasattr(self, "norm_timederiv_X_")
-        )
-
-        if compute_attributes:
-            timederiv_X, norm_timederiv_X = self._approx_dynflow(X=X)
-        else:
-            timederiv_X, norm_timederiv_X = self.timederiv_X_, self.norm_timederiv_X_
+        timederiv_X, norm_timederiv_X = self._approx_dynflow(X=X)
 
         # NOTE: samples are dropped here which are at the time series boundaries. How
         # many, depends on the accuracy level of the time derivative.
@@ -2345,9 +2338,8 @@ class ConeKernel(TSCManifoldKernel):
             except_columns=[f"X{i}" for i in np.arange(X_numpy.shape[0])],
         )
 
-        if compute_attributes:
-            self.timederiv_X_ = timederiv_X
-            self.norm_timederiv_X_ = norm_timederiv_X
+        self.timederiv_X_ = timederiv_X
+        self.norm_timederiv_X_ = norm_timederiv_X
 
         return kernel_matrix
 
-- 
2.43.0


From d7b12469b4b749f85d86354a2f6e3a7b14b2a563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 081/106] fix: distance options of a point cloud are ignored
 and shared

---
 datafold/pcfold/pointcloud.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/pointcloud.py b/datafold/pcfold/pointcloud.py
index 6fa1c2a..e69376e 100644
--- a/datafold/pcfold/pointcloud.py
+++ b/datafold/pcfold/pointcloud.py
@@ -79,7 +79,7 @@ class PCManifold(np.ndarray):
 
         # Set the kernel according to user input
         obj.kernel = kernel
-        obj.distance = dist_kwargs or {}
+        obj.dist_kwargs = {**obj.dist_kwargs, **(dist_kwargs or {})}
 
         return obj
 
@@ -108,7 +108,7 @@ class PCManifold(np.ndarray):
         # default parameters:
         self.kernel = getattr(obj, "kernel", GaussianKernel())
 
-        self.dist_kwargs = getattr(obj, "dist_kwargs", {})
+        self.dist_kwargs = dict(getattr(obj, "dist_kwargs", {}))
         self.dist_kwargs.setdefault("cut_off", np.inf)
         self.dist_kwargs.setdefault("kmin", 0)
         self.dist_kwargs.setdefault("backend", "guess_optimal")
-- 
2.43.0


From dc4067065b9edc2572c6216657d34101b6ec5b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 082/106] fix: selected coordinates of diffusion maps with time
 exponent

---
 datafold/dynfold/dmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 38265ec..a50821f 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -392,7 +392,8 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
         if self.time_exponent == 0:
             dmap_embedding = eigenvectors
         else:
-            eigvals_time = np.power(self.eigenvalues_, self.time_exponent)
+            _, eigvals = self._select_eigenpairs_target_coords()
+            eigvals_time = np.power(eigvals, self.time_exponent)
             dmap_embedding = mat_dot_diagmat(np.asarray(eigenvectors), eigvals_time)
 
         if isinstance(eigenvectors, pd.DataFrame):
-- 
2.43.0


From e60bcf5531809fe611f6c2cd6ef101913cf55a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 083/106] fix: diffusion maps of data frames

---
 datafold/dynfold/dmap.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index a50821f..75fdfa3 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -97,9 +97,9 @@ class _DmapKernelAlgorithms:
         eigvect /= np.linalg.norm(eigvect, axis=0)[np.newaxis, :]
 
         if index_from is not None:
-            eigvect = TSCDataFrame.from_same_indices_as(
+            eigvect = df_type_and_indices_from(
                 index_from,
-                eigvect,
+                values=eigvect,
                 except_columns=[f"ev{i}" for i in range(n_eigenpairs)],
             )
 
@@ -529,9 +529,9 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
         if isinstance(kernel_matrix_, TSCDataFrame):
             # if possible take time index from kernel_matrix (especially
             # dynamics-adapted kernels can drop samples from X)
-            index_from: Optional[TSCDataFrame] = kernel_matrix_
+            index_from: Optional[pd.DataFrame] = kernel_matrix_
         elif (
-            isinstance(self.X_fit_, TSCDataFrame)
+            isinstance(self.X_fit_, pd.DataFrame)
             and kernel_matrix_.shape[0] == self.X_fit_.shape[0]
         ):
             # if kernel is numpy.ndarray or scipy.sparse.csr_matrix, but X_fit_ is a time
@@ -604,8 +604,8 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
         if isinstance(kernel_matrix_cdist, TSCDataFrame):
             # if possible take time index from kernel_matrix (especially
             # dynamics-adapted kernels can drop samples from X)
-            index_from: Optional[TSCDataFrame] = kernel_matrix_cdist
-        elif isinstance(X, TSCDataFrame) and kernel_matrix_cdist.shape[0] == X.shape[0]:
+            index_from: Optional[pd.DataFrame] = kernel_matrix_cdist
+        elif isinstance(X, pd.DataFrame) and kernel_matrix_cdist.shape[0] == X.shape[0]:
             # if kernel is numpy.ndarray or scipy.sparse.csr_matrix, but X_fit_ is a time
             # series, then take indices from X_fit_ -- this only works if no samples are
             # dropped in the kernel computation.
-- 
2.43.0


From 11698bf5f15b286a57ae86c877580f85e0f8d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 084/106] fix: inverse map of diffusion maps after a change of
 settings

---
 datafold/dynfold/dmap.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 75fdfa3..251c062 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -454,9 +454,15 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
         self.target_coords_ = indices
 
         self.n_features_out_ = len(self.target_coords_)
+        self._reset_inverse_map()
 
         return self
 
+    def _reset_inverse_map(self):
+        # the inverse map belongs to the fitted (and selected) eigenvectors
+        if hasattr(self, "inv_coeff_matrix_"):
+            del self.inv_coeff_matrix_
+
     def get_feature_names_out(self, input_features=None):
         if hasattr(self, "target_coords_"):
             feature_names = np.array([f"dmap{i}" for i in self.target_coords_])
@@ -522,6 +528,7 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
             symmetrize_kernel=self.symmetrize_kernel,
         )
 
+        self._reset_inverse_map()
         self.X_fit_ = X
         kernel_matrix_ = self._dmap_kernel(X=X, **kernel_kwargs)
 
@@ -680,11 +687,18 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
 
             eigvec, _ = self._select_eigenpairs_target_coords()
 
+            # maps from the eigenvectors, i.e. independent of "time_exponent"
             self.inv_coeff_matrix_ = scipy.linalg.lstsq(
                 np.asarray(eigvec), _X, cond=None
             )[0]
 
-        X_orig_space = np.asarray(X) @ self.inv_coeff_matrix_
+        eigvec = np.asarray(X)
+
+        if self.time_exponent != 0:
+            _, eigvals = self._select_eigenpairs_target_coords()
+            eigvec = eigvec / np.power(eigvals, self.time_exponent)
+
+        X_orig_space = eigvec @ self.inv_coeff_matrix_
 
         try:
             feature_names = self.feature_names_in_
-- 
2.43.0


From 081fd20a65a5d47b2247337a1305b396abca4e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 085/106] fix: number of eigenpairs close to the number of
 samples

---
 datafold/pcfold/eigsolver.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/eigsolver.py b/datafold/pcfold/eigsolver.py
index b568c81..9165a9d 100644
--- a/datafold/pcfold/eigsolver.py
+++ b/datafold/pcfold/eigsolver.py
@@ -70,10 +70,18 @@ def scipy_eigsolver(
     """
     n_samples, n_features = kernel_matrix.shape
 
+    # the sparse non-symmetric solver computes at most n_features - 2 eigenpairs
+    is_dense_solver = n_eigenpairs == n_features or (
+        n_eigenpairs == n_features - 1 and not kernel.is_symmetric
+    )
+
     # check only for n_eigenpairs == n_features and n_eigenpairs < n_features
     # wrong parametrized n_eigenpairs are catched in scipy functions
-    if n_eigenpairs == n_features:
-        if kernel._is_symmetric_kernel:
+    if is_dense_solver:
+        if scipy.sparse.issparse(kernel_matrix):
+            kernel_matrix = kernel_matrix.toarray()
+
+        if kernel.is_symmetric:
             scipy_eigvec_solver = scipy.linalg.eigh
         else:
             scipy_eigvec_solver = scipy.linalg.eig
@@ -117,6 +125,11 @@ def scipy_eigsolver(
 
     eigvals, eigvects = scipy_eigvec_solver(kernel_matrix, **solver_kwargs)
 
+    if eigvals.shape[0] > n_eigenpairs:
+        # the dense solver computes all eigenpairs
+        idx = np.sort(np.argsort(-np.abs(eigvals), kind="stable")[:n_eigenpairs])
+        eigvals, eigvects = eigvals[idx], eigvects[:, idx]
+
     return eigvals, eigvects
 
 
-- 
2.43.0


From d047b1fabbf95575075a93260c9ebb9494b1563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 086/106] fix: landmark diffusion maps of data frames and time
 series

---
 datafold/dynfold/dmap.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 251c062..5d354d9 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -979,10 +979,10 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
             )
 
         if n_landmarks == X.shape[0]:
-            landmarks = X.to_numpy() if isinstance(X, TSCDataFrame) else X
+            landmarks = X.to_numpy() if isinstance(X, pd.DataFrame) else X
         else:
             landmarks, _ = random_subsample(
-                X.to_numpy() if isinstance(X, TSCDataFrame) else X,
+                X.to_numpy() if isinstance(X, pd.DataFrame) else X,
                 n_landmarks,
                 random_state=self.random_state,
             )
@@ -1005,9 +1005,9 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
             svdvec_left = diagmat_dot_mat(normalize_diagonal, svdvec_left)
 
         if index_from is not None:
-            svdvec_left = TSCDataFrame.from_same_indices_as(
+            svdvec_left = df_type_and_indices_from(
                 index_from,
-                svdvec_left,
+                values=svdvec_left,
                 except_columns=[f"sv{i}" for i in range(n_svdtriplet)],
             )
 
@@ -1023,7 +1023,11 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
         It is assumed that the model is already fit.
         """
         if hasattr(self, "target_coords_"):
-            svdvec_left = self.svdvec_left_[:, self.target_coords_]
+            if isinstance(self.svdvec_left_, pd.DataFrame):
+                svdvec_left = self.svdvec_left_.iloc[:, self.target_coords_]
+            else:
+                svdvec_left = self.svdvec_left_[:, self.target_coords_]
+
             svdvec_right = self.svdvec_right_[:, self.target_coords_]
             svdvals = self.svdvalues_[self.target_coords_]
         else:
@@ -1176,7 +1180,7 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
             kernel_matrix=kernel_matrix,
             n_svdtriplet=self.n_svdtriplet,
             normalize_diagonal=self.rose_kernel_.normalize_diagonal_,
-            index_from=X if isinstance(X, TSCDataFrame) else None,
+            index_from=X if isinstance(X, pd.DataFrame) else None,
         )
 
         if store_kernel_matrix:
@@ -1229,8 +1233,8 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
             svdvec_left_interp, svdvals
         )
 
-        if isinstance(X, TSCDataFrame) and kernel_matrix_cdist.shape[0] == X.shape[0]:
-            roseland_embedding = TSCDataFrame.from_same_indices_as(
+        if isinstance(X, pd.DataFrame) and kernel_matrix_cdist.shape[0] == X.shape[0]:
+            roseland_embedding = df_type_and_indices_from(
                 indices_from=X,
                 values=roseland_embedding,
                 except_columns=self.get_feature_names_out(),
@@ -1260,10 +1264,10 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
         self.fit(X=X, **fit_params)
         svdvec_left, svdvals, _ = self._select_svdpairs_target_coords()
 
-        if isinstance(X, TSCDataFrame):
-            svdvec_left = TSCDataFrame.from_same_indices_as(
+        if isinstance(X, pd.DataFrame):
+            svdvec_left = df_type_and_indices_from(
                 indices_from=X,
-                values=svdvec_left,
+                values=np.asarray(svdvec_left),
                 except_columns=self.get_feature_names_out(),
             )
 
-- 
2.43.0


From 580d5478aad013750b0c807668d7af9531636cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 087/106] fix: time exponent of the landmark embedding at fit

---
 datafold/dynfold/dmap.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 5d354d9..6bf5e27 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -1264,14 +1264,18 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
         self.fit(X=X, **fit_params)
         svdvec_left, svdvals, _ = self._select_svdpairs_target_coords()
 
+        roseland_embedding = self._perform_roseland_embedding(
+            np.asarray(svdvec_left), svdvals
+        )
+
         if isinstance(X, pd.DataFrame):
-            svdvec_left = df_type_and_indices_from(
+            roseland_embedding = df_type_and_indices_from(
                 indices_from=X,
-                values=np.asarray(svdvec_left),
+                values=roseland_embedding,
                 except_columns=self.get_feature_names_out(),
             )
 
-        return svdvec_left
+        return roseland_embedding
 
 
 class LocalRegressionSelection(BaseEstimator, TSCTransformerMixin):
-- 
2.43.0


From 48610aae726c3adb32002003d802e3fcd2457d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 088/106] fix: landmark diffusion maps change their kernel
 parameter

---
 datafold/dynfold/dmap.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 6bf5e27..971588a 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -1163,11 +1163,15 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
             ensure_min_samples=2,
         )
 
-        if self.kernel is None:
-            self.kernel = self._get_default_kernel()
+        # deepcopy to not mutate the parameter self.kernel
+        internal_kernel = (
+            deepcopy(self.kernel)
+            if self.kernel is not None
+            else self._get_default_kernel()
+        )
 
         self.rose_kernel_ = RoselandKernel(
-            internal_kernel=self.kernel, alpha=self.alpha
+            internal_kernel=internal_kernel, alpha=self.alpha
         )
 
         kernel_matrix = self.rose_kernel_(self.landmarks_, X)
-- 
2.43.0


From d9d791fba9b917ece66478180edc1588d9aba6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:42 +0000
Subject: [PATCH 089/106] fix: LocalRegressionSelection with n_subsample fails
 for pandas.DataFrame

---
 datafold/dynfold/dmap.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 971588a..43a5ce9 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -1595,9 +1595,8 @@ class LocalRegressionSelection(BaseEstimator, TSCTransformerMixin):
         self._read_fit_params(attrs=None, fit_params=fit_params)
 
         if not np.isinf(self.n_subsample):
-            X_numpy = X.to_numpy() if isinstance(X, TSCDataFrame) else X
             eigvec = resample(
-                X_numpy,
+                np.asarray(X),
                 replace=False,
                 n_samples=self.n_subsample,
                 random_state=self.random_state,
-- 
2.43.0


From 1a75c778251e92d6868f5d589d0368223d7d0d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:27 +0000
Subject: [PATCH 090/106] fix: GeometricHarmonicsInterpolator.predict loses the
 shape for a single query point

---
 datafold/dynfold/outofsample.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index 3ef7a72..e631038 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -243,7 +243,10 @@ class GeometricHarmonicsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstim
         )
 
         kernel_matrix_ = self._dmap_kernel(self.X_fit_, X)
-        return np.squeeze(kernel_matrix_ @ self._aux)
+        y_pred = np.asarray(kernel_matrix_ @ self._aux)
+
+        # single target functions are returned one-dimensional
+        return y_pred[:, 0] if y_pred.shape[1] == 1 else y_pred
 
     @warn_known_bug(gitlab_issue=16)
     def gradient(self, X: np.ndarray, vcol: Optional[int] = None) -> np.ndarray:
-- 
2.43.0


From 2b1ae8402264fbd5086f0532d3906bdf72013985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:27 +0000
Subject: [PATCH 091/106] fix: GeometricHarmonicsInterpolator.score ignores
 sample_weight

---
 datafold/dynfold/outofsample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index e631038..90530e6 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -370,7 +370,7 @@ class GeometricHarmonicsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstim
         y_pred = self.predict(X)
 
         score = mean_squared_error(
-            y, y_pred, sample_weight=None, multioutput=multioutput
+            y, y_pred, sample_weight=sample_weight, multioutput=multioutput
         )
 
         if multioutput == "raw_values" and len(score) == 1:
-- 
2.43.0


From ca534d25551f2eb6e98280787b442b09b9802d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:27 +0000
Subject: [PATCH 092/106] fix: GeometricHarmonicsInterpolator.fit changes its
 kernel parameter

---
 datafold/dynfold/outofsample.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index 90530e6..b7511f0 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -1,4 +1,5 @@
 import enum
+from copy import deepcopy
 from typing import Optional
 
 import matplotlib.pyplot as plt
@@ -178,8 +179,11 @@ class GeometricHarmonicsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstim
             y = y[:, np.newaxis]
         check_consistent_length(X, y)
 
+        # deepcopy to not mutate the parameter self.kernel
         internal_kernel = (
-            self.kernel if self.kernel is not None else self._get_default_kernel()
+            deepcopy(self.kernel)
+            if self.kernel is not None
+            else self._get_default_kernel()
         )
 
         self._dmap_kernel = DmapKernelFixed(
-- 
2.43.0


From 17f75e69b3d363ac089c78b0832e6c3f9984e213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:27 +0000
Subject: [PATCH 093/106] fix: LaplacianPyramidsInterpolator accepts mu=1 and
 never terminates

---
 datafold/dynfold/outofsample.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index b7511f0..b34330f 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -594,6 +594,7 @@ class LaplacianPyramidsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstima
             "mu",
             target_type=(int, np.integer, float, np.floating),
             min_val=1,
+            include_boundaries="neither",
         )
 
         if isinstance(X, np.memmap):
-- 
2.43.0


From 415c29c36f2d056d434eca100b719f727bd8855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:56 +0000
Subject: [PATCH 094/106] fix: auto adaptive Laplacian pyramids never terminate
 if the residual stagnates

---
 datafold/dynfold/outofsample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index b34330f..63bd5ef 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -640,8 +640,8 @@ class LaplacianPyramidsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstima
         if self.auto_adaptive:
             if (
                 not np.isnan(last_residual_norm)  # nan if self.level_ <= 1
-                # stop if residual is  increasing
-                and current_residual_norm > last_residual_norm
+                # stop if residual is increasing (or does not change anymore)
+                and current_residual_norm >= last_residual_norm
             ):
                 signal = self._LoopCond.LOOCV_INCREASES
 
-- 
2.43.0


From cfaf4fd050c25277dfe50e4f55101ce591cb3c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:56 +0000
Subject: [PATCH 095/106] fix: Laplacian pyramids never terminate if the
 residual tolerance cannot be reached

---
 datafold/dynfold/outofsample.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index 63bd5ef..3357ea1 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -799,6 +799,12 @@ class LaplacianPyramidsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstima
         )
 
         while self._LoopCond.NO_TERMINATION in func_loop_conditions:
+            if epsilon < np.finfo(float).tiny:
+                raise ValueError(
+                    f"The residual tolerance {self.residual_tol} cannot be reached. "
+                    "Kernel scale is numerically zero."
+                )
+
             (dmap_kernel, kernel_matrix) = self._prepare_kernel_and_matrix(
                 distance_matrix, epsilon
             )
-- 
2.43.0


From b9f7eccc6cb272ca8e55a831784414b16989ad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:52 +0000
Subject: [PATCH 096/106] fix: KMPC control sequence carries series ID 0
 instead of the ID of the initial condition

---
 datafold/appfold/mpc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datafold/appfold/mpc.py b/datafold/appfold/mpc.py
index 27547b6..a09dd01 100644
--- a/datafold/appfold/mpc.py
+++ b/datafold/appfold/mpc.py
@@ -481,6 +481,7 @@ class KMPC:
             U.reshape((self.horizon, self.n_control_input)),
             time_values=control_time_values,
             feature_names=self.edmd.control_names_in_,
+            ts_id=X_dict.ids[0],
         )
         return U
 
-- 
2.43.0


From f8b88922bbed139428f27cbbaf155caf1c6c03fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:52 +0000
Subject: [PATCH 097/106] fix: KMPC closed loop only works for systems that
 return a single state

---
 datafold/appfold/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/appfold/mpc.py b/datafold/appfold/mpc.py
index a09dd01..ff5265f 100644
--- a/datafold/appfold/mpc.py
+++ b/datafold/appfold/mpc.py
@@ -559,7 +559,7 @@ class KMPC:
                 edmd_state = state.tsc.augment_control_input(U_next).iloc[[-1], :]
                 edmd_state = edmd_state.loc[:, self.edmd.feature_names_in_]
             else:
-                edmd_state = state.loc[:, self.edmd.feature_names_in_]
+                edmd_state = state.iloc[[-1], :].loc[:, self.edmd.feature_names_in_]
 
             # TODO: preallocating memory and writing in is more efficient than concat
             # store control input and state the sequence, which is used later for plotting
-- 
2.43.0


From d952642a66bba089d64a1e82e86e1e4048a1d9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:52 +0000
Subject: [PATCH 098/106] fix: KMPC rejects the documented integer quantities
 of interest

---
 datafold/appfold/mpc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/datafold/appfold/mpc.py b/datafold/appfold/mpc.py
index ff5265f..d325a89 100644
--- a/datafold/appfold/mpc.py
+++ b/datafold/appfold/mpc.py
@@ -178,8 +178,14 @@ class KMPC:
             self.qois = self.edmd.dmd_model.feature_names_in_
             self.is_all_features = True
         else:
-            # TODO: currently no validation
-            self.qois = qois
+            # feature names, or (integer) positions of the features
+            all_features = self.edmd.dmd_model.feature_names_in_
+            self.qois = [
+                all_features[q]
+                if isinstance(q, (int, np.integer)) and q not in all_features
+                else q
+                for q in qois
+            ]
             self.is_all_features = False
 
         self.n_qois = len(self.qois)
-- 
2.43.0


From 3ef2612c80a5c82d39fb681843e57b416585f6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:52 +0000
Subject: [PATCH 099/106] fix: KMPC silently misassigns reference columns in
 another order than the quantities of interest

---
 datafold/appfold/mpc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datafold/appfold/mpc.py b/datafold/appfold/mpc.py
index d325a89..62e52ed 100644
--- a/datafold/appfold/mpc.py
+++ b/datafold/appfold/mpc.py
@@ -444,6 +444,9 @@ class KMPC:
                 f"Got {reference.shape=} instead."
             )
 
+        if set(reference.columns) == set(self.qois):
+            reference = reference.loc[:, list(self.qois)]
+
         np_reference = reference.to_numpy()
         np_reference = np_reference.reshape((self.horizon * self.n_qois, 1))
 
-- 
2.43.0


From 5d3b6ce366750c3fdfc14e3c373337563fbd148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:52 +0000
Subject: [PATCH 100/106] fix: LQR fails for multiple control inputs, single
 time series and preset target states

---
 datafold/appfold/mpc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/datafold/appfold/mpc.py b/datafold/appfold/mpc.py
index 62e52ed..7229c2d 100644
--- a/datafold/appfold/mpc.py
+++ b/datafold/appfold/mpc.py
@@ -4,6 +4,7 @@ from typing import Optional, Union
 
 import numpy as np
 import pandas as pd
+import scipy.linalg
 import scipy.sparse
 from scipy.integrate import solve_ivp
 from scipy.interpolate import interp1d
@@ -624,7 +625,7 @@ class LQR:
         self.Flqr = self._setup_optimizer()
 
     def preset_target_state(self, target_state: TSCDataFrame):
-        self._preset_target_state = self.edmd.transform(target_state)
+        self._preset_target_state = self.edmd.transform(target_state).to_numpy()
         return self
 
     def _setup_optimizer(self):
@@ -665,8 +666,8 @@ class LQR:
 
         u = -self.Flqr @ (self.edmd.transform(X).to_numpy() - target_state_dict).T
         u = TSCDataFrame.from_array(
-            u,
-            time_values=X.time_values()[-1],
+            u.T,
+            time_values=X.time_values()[[-1]],
             feature_names=self.edmd.control_names_in_,
             ts_id=X.ids[0],
         )
-- 
2.43.0


From 609d0fe44b30b3f8fdb2699a3e9177190a4b8b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 101/106] fix: DMDStandard overwrites the constructor parameter
 residual_filter during fit

---
 datafold/dynfold/dmd.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index cf92950..01c41b8 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -930,20 +930,20 @@ class DMDStandard(DMDBase):
 
         residuals = np.sqrt(res_squared, out=res_squared)
 
-        if isinstance(self.residual_filter, (float, int)):
-            self.residual_filter = dict(threshold=self.residual_filter)
-        elif not isinstance(self.residual_filter, dict):
+        residual_filter = self.residual_filter
+
+        if isinstance(residual_filter, (float, int)):
+            residual_filter = dict(threshold=residual_filter)
+        elif not isinstance(residual_filter, dict):
             raise TypeError("residual_filter must be a float, int or dict.")
 
         # TODO: there is currently no validation if the user sets a wrong value
-        if self.residual_filter.get("threshold", False):
-            mask_keep = residuals <= self.residual_filter["threshold"]
-        elif self.residual_filter.get("quantile", False):
-            mask_keep = residuals <= np.quantile(
-                residuals, self.residual_filter["quantile"]
-            )
-        elif self.residual_filter.get("keep_n", False):
-            value = self.residual_filter["keep_n"]
+        if residual_filter.get("threshold", False):
+            mask_keep = residuals <= residual_filter["threshold"]
+        elif residual_filter.get("quantile", False):
+            mask_keep = residuals <= np.quantile(residuals, residual_filter["quantile"])
+        elif residual_filter.get("keep_n", False):
+            value = residual_filter["keep_n"]
             res_n = np.partition(residuals, value - 1)[value - 1]
             mask_keep = residuals <= res_n
         else:
@@ -952,7 +952,7 @@ class DMDStandard(DMDBase):
                 "'quantile' or 'keep_n' must be available"
             )
 
-        if self.residual_filter.get("store_residuals", False):
+        if residual_filter.get("store_residuals", False):
             self.residuals_ = residuals
             self.residuals_mask_keep_ = mask_keep
 
@@ -979,7 +979,7 @@ class DMDStandard(DMDBase):
         if eigenvectors_left is not None:
             eigenvectors_left = eigenvectors_left[mask_keep, :]
 
-        if self.residual_filter.get("sort", False):
+        if residual_filter.get("sort", False):
             sortidx = np.argsort(residuals[mask_keep])  # from low to high
             eigenvalues = eigenvalues[sortidx]
             eigenvectors_right = eigenvectors_right[:, sortidx]
-- 
2.43.0


From 1e9918ecee7ba2f45d0341a9f7633862e26253c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 102/106] fix: DMD models in matrix mode cannot be fitted again

---
 datafold/dynfold/dynsystem.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/datafold/dynfold/dynsystem.py b/datafold/dynfold/dynsystem.py
index d3b65d3..045ae00 100644
--- a/datafold/dynfold/dynsystem.py
+++ b/datafold/dynfold/dynsystem.py
@@ -863,9 +863,6 @@ class LinearDynamicalSystem:
         LinearDynamicalSystem
             self
         """
-        if self.is_linear_system_setup():
-            raise RuntimeError("Linear system is already setup.")
-
         is_matrix(system_matrix, "system_matrix")
         self.sys_matrix_ = system_matrix
 
-- 
2.43.0


From e53d958fd104d3a7916e6f97484913a3e76722f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 103/106] fix: DMD models evolve with the system type and mode
 of the constructor after set_params

---
 datafold/dynfold/dmd.py       | 1 +
 datafold/dynfold/dynsystem.py | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 01c41b8..951b3ac 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -1250,6 +1250,7 @@ class DMDStandard(DMDBase):
         )
         self._validate_and_setup_fit_attrs(X=X)
         self._validate_parameters()
+        self.sys_type = "differential" if self.approx_generator else "flowmap"
 
         store_system_matrix, sample_weights = self._read_fit_params(
             attrs=[
diff --git a/datafold/dynfold/dynsystem.py b/datafold/dynfold/dynsystem.py
index 045ae00..4a44c3f 100644
--- a/datafold/dynfold/dynsystem.py
+++ b/datafold/dynfold/dynsystem.py
@@ -457,6 +457,9 @@ class LinearDynamicalSystem:
         self._check_system_type()
         self._check_system_mode()
 
+        self._select_solve_strategy()
+
+    def _select_solve_strategy(self) -> None:
         self._evolve_system_states = SystemSolveStrategy.select_strategy(
             system_type=self.sys_type,
             system_mode=self.sys_mode,
@@ -826,6 +829,7 @@ class LinearDynamicalSystem:
                 f"With '{self.sys_mode=}' this function is not supported."
             )
 
+        self._select_solve_strategy()
         is_matrix(eigenvectors_right, name="eigenvectors_right")
 
         if eigenvectors_left is not None:
@@ -863,6 +867,7 @@ class LinearDynamicalSystem:
         LinearDynamicalSystem
             self
         """
+        self._select_solve_strategy()
         is_matrix(system_matrix, "system_matrix")
         self.sys_matrix_ = system_matrix
 
-- 
2.43.0


From 97e3adc95c037b3c6d232ff562ecd1bbccf84d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 104/106] fix: OnlineDMD keeps the spectral components of an
 earlier fit if the new data is not sufficient

---
 datafold/dynfold/dmd.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 951b3ac..830390e 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2519,6 +2519,11 @@ class OnlineDMD(DMDBase):
 
         self.timestep_ = p
 
+        # remove spectral components of an earlier fit (the new data may not be sufficient)
+        for attr in ("eigenvectors_right_", "eigenvalues_", "eigenvectors_left_"):
+            if hasattr(self, attr):
+                delattr(self, attr)
+
         self._update_spectral_system()
 
         return self
-- 
2.43.0


From 1c00a56cae3432ffea95067ee9da3e8d96cce634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:14 +0000
Subject: [PATCH 105/106] fix: TSCDataFrame loses its attributes when it is
 pickled

---
 datafold/pcfold/timeseries/collection.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 6c1bf32..4942861 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -821,6 +821,13 @@ class TSCDataFrame(pd.DataFrame):
         df = pd.read_csv(filepath, index_col=[0, 1], header=[0], **kwargs)
         return cls(df)
 
+    def __getstate__(self):
+        # the state of pandas does not include the attributes of TSCDataFrame
+        state = super().__getstate__()
+        state["is_validate"] = self.is_validate
+        state["fixed_delta"] = self.fixed_delta
+        return state
+
     @property
     def _constructor(self):
         return partial(TSCDataFrame, validate=self.is_validate)
-- 
2.43.0


From 13a9029d1707d9a09f5aaccd7f258f945aef7fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:13 +0000
Subject: [PATCH 106/106] fix: LaplacianPyramidsInterpolator validates the data
 before it checks that it is fitted

---
 datafold/dynfold/outofsample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index 3357ea1..c8ab212 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -914,10 +914,10 @@ class LaplacianPyramidsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstima
         numpy.ndarray
             Predicted function values of shape `(n_samples, n_targets_)`.
         """
-        X, _ = self._validate(X, y=None, ensure_y=False, ensure_min_samples=1)
-
         check_is_fitted(self)
 
+        X, _ = self._validate(X, y=None, ensure_y=False, ensure_min_samples=1)
+
         # allocate memory for return
         y_hat = np.zeros([X.shape[0], self.n_targets_])
         distance_matrix = self._distance_matrix(X=self.X_, Y=X)
-- 
2.43.0

