From 9c2468ed0cad843876114842081104c80223e904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 01/80] fix: triple_barrier leaves touch index of skipped
 events uninitialised

---
 finmlkit/label/tbm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 0e749fa..7971cd7 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -97,6 +97,7 @@ def triple_barrier(
         if t1_idx <= t0_idx:
             print("Warning: Vertical barrier index is less than or equal to event index. Skipping this event.")
             print(t0, t1)
+            touch_idxs[i_event] = t0_idx  # No holding period; never leave the index uninitialised
             continue
 
         # ---------- Evaluate the path -----------
-- 
2.43.0


From 60a24e0bf2324def15e01c2faa30c43faf41c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 02/80] fix: volume_profile_developing writes results outside
 its arrays when the range does not start at the first bar

---
 finmlkit/feature/core/volume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index 38a6bbb..9f28c32 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -562,9 +562,9 @@ def volume_profile_developing(ts: np.ndarray, highs: np.ndarray, lows: np.ndarra
             poc_price, hva_price, lva_price = comp_poc_hva_lva(price_levels_window, developing_total_volumes,
                                                                va_pct)
 
-        poc_prices[t] = poc_price
-        hva_prices[t] = hva_price
-        lva_prices[t] = lva_price
+        poc_prices[t - start_idx] = poc_price
+        hva_prices[t - start_idx] = hva_price
+        lva_prices[t - start_idx] = lva_price
 
     return ts[start_idx:end_idx], poc_prices, hva_prices, lva_prices
 
-- 
2.43.0


From 4248f3fedc70fa3cecd86bfe77de8b62569c5af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 03/80] fix: time bar boundaries are rounded to float64 and
 assign trades near a boundary to the wrong bar

---
 finmlkit/bar/logic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/logic.py b/finmlkit/bar/logic.py
index d95da3b..6d4548a 100644
--- a/finmlkit/bar/logic.py
+++ b/finmlkit/bar/logic.py
@@ -27,13 +27,14 @@ def _time_bar_indexer(
         The first bar is aligned to the ceiling of the first timestamp, ensuring consistent bar boundaries.
         Duplicate indices may occur if a bar interval contains no trades (empty bars).
     """
-    bar_interval_ns = interval_seconds * 1e9
+    # Integer nanoseconds: float64 cannot represent epoch timestamps to the nanosecond
+    bar_interval_ns = np.int64(round(interval_seconds * 1e9))
 
     # determine the first bar start time (closest integer multiple of bar_interval_ns)
     bar_start_ts = timestamps[0] // bar_interval_ns * bar_interval_ns
 
     # last tick timestamp
-    last_ts = np.ceil(timestamps[-1] / bar_interval_ns) * bar_interval_ns
+    last_ts = -(-timestamps[-1] // bar_interval_ns) * bar_interval_ns
 
     # create the array of bar close timestamps
     bar_clock = np.arange(bar_start_ts, last_ts + bar_interval_ns + 1, bar_interval_ns, dtype=np.int64)
-- 
2.43.0


From b135dc598f181c8aa07a788cd8bbd0176c03942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 04/80] fix: triple_barrier decides trades at the time limit on
 float64-rounded timestamps

---
 finmlkit/label/tbm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 7971cd7..4cca2b8 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -63,7 +63,8 @@ def triple_barrier(
 
     n_events = len(event_idxs)  # Number of events (subset of samples)
     bottom_mult, top_mult = horizontal_barriers
-    vertical_barrier_ns = vertical_barrier * 1e9  # Convert to nanoseconds
+    # Convert to integer nanoseconds (float64 cannot represent epoch timestamps to the nanosecond)
+    vertical_barrier_ns = np.int64(min(round(vertical_barrier, 9) * 1e9, 4e18))
     min_close_time_ns = min_close_time_sec * 1e9    # Convert to nanoseconds
 
     log_close = np.log(close)  # Precompute log of close prices for efficiency
-- 
2.43.0


From 798b9b6b50cec8931b8a3a4fde45ffec7a868884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 05/80] fix: CUSUM bar indexer overwrites the caller's sigma
 array

---
 finmlkit/bar/logic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/logic.py b/finmlkit/bar/logic.py
index 6d4548a..c0cbfcb 100644
--- a/finmlkit/bar/logic.py
+++ b/finmlkit/bar/logic.py
@@ -184,7 +184,8 @@ def _cusum_bar_indexer(
             first_non_nan_idx = i
             break
 
-    # Fill NaN values with previous non-NaN value
+    # Fill NaN values with previous non-NaN value (on a copy: the caller's array must not change)
+    sigma = sigma.copy()
     for i in range(first_non_nan_idx, n):
         if np.isnan(sigma[i]):
             sigma[i] = sigma[i-1]
-- 
2.43.0


From 3d8dc8e18cecd592f4200efeee61313af06a1fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 06/80] fix: spread features of a bar starting at the first
 trade read the last trade of the tape

---
 finmlkit/bar/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index fc486e5..decfdd4 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -482,7 +482,7 @@ def comp_bar_directional_features(
         current_cum_spread = 0.0
 
         # Initialize previous tick sign for spread calculation
-        if end > start:
+        if end > start > 0:
             prev_tick_sign = trade_sides[start - 1]  # Previous trade side at the start of the bar
         else:
             prev_tick_sign = 0  # Default value if no trades in bar
@@ -492,7 +492,7 @@ def comp_bar_directional_features(
             current_tick_sign = trade_sides[j]
 
             # Calculate the spread between buy and sell prices
-            if current_tick_sign != prev_tick_sign:
+            if j > 0 and current_tick_sign != prev_tick_sign:
                 spread = abs(prices[j] - prices[j - 1])
                 if spread > current_max_spread:
                     current_max_spread = spread
-- 
2.43.0


From ecaabbe797b15c00ed837bd1ac8fc1af44c78bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 07/80] fix: directional features divide by zero on empty bars

---
 finmlkit/bar/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index decfdd4..ee523b9 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -533,7 +533,8 @@ def comp_bar_directional_features(
         dollars_buy[i] = current_dollars_buy
         dollars_sell[i] = current_dollars_sell
         max_spread[i] = current_max_spread
-        mean_spread[i] = current_cum_spread / (current_tics_buy + current_tics_sell)
+        n_sided = current_tics_buy + current_tics_sell
+        mean_spread[i] = current_cum_spread / n_sided if n_sided > 0 else np.nan  # No trades in an empty bar
 
     return (
         ticks_buy, ticks_sell,
-- 
2.43.0


From d59d882e7960ed1fb526063551e721afed72615f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 08/80] fix: lagged returns, true range and price-volume
 correlation access element 0 of empty inputs

---
 finmlkit/feature/core/correlation.py | 2 ++
 finmlkit/feature/core/utils.py       | 2 ++
 finmlkit/feature/core/volatility.py  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/finmlkit/feature/core/correlation.py b/finmlkit/feature/core/correlation.py
index 3d295ce..c62124a 100644
--- a/finmlkit/feature/core/correlation.py
+++ b/finmlkit/feature/core/correlation.py
@@ -21,6 +21,8 @@ def rolling_price_volume_correlation(price: NDArray[np.float64],
     n = len(price)
     result = np.empty(n, dtype=np.float64)
     result.fill(np.nan)
+    if n == 0:
+        return result
 
     # Calculate returns (pandas pct_change)
     returns = np.empty(n, dtype=np.float64)
diff --git a/finmlkit/feature/core/utils.py b/finmlkit/feature/core/utils.py
index 6bc180e..f3334da 100644
--- a/finmlkit/feature/core/utils.py
+++ b/finmlkit/feature/core/utils.py
@@ -37,6 +37,8 @@ def comp_lagged_returns(timestamps: NDArray[np.int64], close: NDArray[np.float64
     returns = np.empty(n, dtype=np.float64)
     returns.fill(np.nan)
     ret_window_ns = return_window_sec * 1e9
+    if n == 0:
+        return returns
 
     # Find the first index where the lookback window is fully contained
     start_idx = np.searchsorted(timestamps, timestamps[0] + ret_window_ns, side='left')
diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index b4b16e7..b7f5f0f 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -233,6 +233,8 @@ def true_range(high: NDArray, low: NDArray, close: NDArray) -> NDArray:
         raise ValueError("The length of high, low, and close prices must be the same.")
 
     tr = np.empty_like(high)
+    if len(high) == 0:
+        return tr
 
     # Handle first value specially - just high-low spread if not NaN
     if np.isnan(high[0]) or np.isnan(low[0]):
-- 
2.43.0


From 2b6848b6c705770fb713dbb2b6af29770616fb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 09/80] fix: ewma accesses element 0 of an empty input

---
 finmlkit/feature/core/ma.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/finmlkit/feature/core/ma.py b/finmlkit/feature/core/ma.py
index 4cf7aee..68462be 100644
--- a/finmlkit/feature/core/ma.py
+++ b/finmlkit/feature/core/ma.py
@@ -28,6 +28,9 @@ def ewma(y: NDArray, span: int) -> NDArray[np.float64]:
     if span < 1:
         raise ValueError("span size is less than or equal to 1. Please provide a span size greater than 1.")
 
+    if n == 0:
+        return ewma
+
     alpha = 2.0 / (span + 1.0)
     u_t = y[0]  # Initial value for numerator
     v_t = 1.0   # Initial value for denominator
-- 
2.43.0


From d2f3eae3bf51d2f8acd138294a66117bb17c83f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 10/80] fix: DailyGap divides by the closing price of the day
 it is computed for (look-ahead)

The previous close was taken as the second last price of the same day, so the
value reported at midnight was computed from prices of the following 24 hours.
---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 2e99d41..77e40f4 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1096,7 +1096,7 @@ class DailyGap(SISOTransform):
         midnight_close = series.resample('D').first()
 
         # Get close prices at 23:45 UTC from previous day (last value of each day after shifting)
-        prev_2345_close = series.shift(1).resample('D').last()
+        prev_2345_close = series.resample('D').last().shift(1)
 
         # Calculate the gap as percentage change
         daily_gap = (midnight_close - prev_2345_close) / prev_2345_close
-- 
2.43.0


From 1f9c3f211a5bacd845f772eb8d1272449e7f5cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 11/80] fix: ReturnT, BarRate, EWMST and PctChange lose their
 window when a feature configuration is reloaded

---
 finmlkit/feature/transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 77e40f4..2e89580 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -102,6 +102,7 @@ class ReturnT(SISOTransform):
         window_sec = window.total_seconds()
         output_col = f"ret{window_sec}s" if window_sec > 1e-6 else "ret1"
         super().__init__(input_col, output_col)
+        self.window = window
         self.window_sec = window_sec
         self.is_log = is_log
 
@@ -190,6 +191,7 @@ class PctChange(SISOTransform):
         :return: The percentage change of the signal.
         """
         super().__init__(input_col, f"pctc{window}")
+        self.window = window
         self.periods = window
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
@@ -318,6 +320,7 @@ class EWMST(SISOTransform):
         """
         half_life_sec = half_life.total_seconds()
         super().__init__(input_col, f"ewms{half_life_sec}s")
+        self.half_life = half_life
         self.half_life_sec = half_life_sec
 
     def _pd(self, x):
@@ -1235,6 +1238,7 @@ class BarRate(SISOTransform):
 
         super().__init__(input_col, output_name)
         self.out_name = output_name
+        self.window = window
         self.window_sec = window_sec
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
-- 
2.43.0


From 05e3f8f217f8ccba57e808ac6c5688958b9eec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 12/80] fix: Feature.ema(adjust=False) turns into adjust=True
 when a feature configuration is reloaded

---
 finmlkit/feature/kit.py   |  4 +++-
 finmlkit/feature/utils.py | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 341e6a9..1e21564 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -397,7 +397,9 @@ class Feature:
         :param adjust: Whether to adjust the EMA calculation (default is True)
         :return: A new Feature with EMA values
         """
-        return self.apply(lambda x: x.ewm(span=span, adjust=adjust).mean(), suffix=f"ema{span}")
+        feature = self.apply(lambda x: x.ewm(span=span, adjust=adjust).mean(), suffix=f"ema{span}")
+        feature.transform.op_params = {"adjust": bool(adjust)}  # not part of the name, needed for serialization
+        return feature
 
     def rolling_sum(self, window):
         """
diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index d6fad11..1824e2f 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -86,7 +86,7 @@ _OP_UNARY = {
 }
 
 
-def _maybe_unary_from_name(name: str):
+def _maybe_unary_from_name(name: str, params: Optional[Dict[str, Any]] = None):
     # Dynamic clip pattern: clip_<lower>_<upper>, where bounds may be empty
     if name.startswith("clip_"):
         parts = name.split("_")
@@ -115,7 +115,8 @@ def _maybe_unary_from_name(name: str):
         if name.startswith("ema"):
             n = int(name[len("ema"):])
             # Default to adjust=True (matches Feature.ema default)
-            return lambda x: x.ewm(span=n, adjust=True).mean()
+            adjust = bool((params or {}).get("adjust", True))
+            return lambda x: x.ewm(span=n, adjust=adjust).mean()
         if name.startswith("lag"):
             n = int(name[len("lag"):])
             return lambda x: x.shift(n)
@@ -177,6 +178,9 @@ def transform_to_config(t: BaseTransform) -> Dict[str, Any]:
             name = t.produces[0] if isinstance(t.produces, list) else t.produces
             op_name = name.split("(")[0]
         cfg["op_name"] = op_name
+        op_params = getattr(t, "op_params", None)
+        if op_params:
+            cfg["op_params"] = _serialize_value(op_params)
         cfg["child"] = transform_to_config(t.transform)
         return cfg
     # External function transform
@@ -256,10 +260,14 @@ def transform_from_config(cfg: Dict[str, Any]) -> BaseTransform:
     if kind == "unary":
         child = transform_from_config(cfg["child"])  # type: ignore[index]
         op_name = cfg.get("op_name", "abs")
-        op = _maybe_unary_from_name(op_name)
+        op_params = _deserialize_value(cfg.get("op_params")) or {}
+        op = _maybe_unary_from_name(op_name, op_params)
         if op is None:
             raise ValueError(f"Unsupported unary op: {op_name}")
-        return UnaryOpTransform(child, op_name, op)
+        obj = UnaryOpTransform(child, op_name, op)
+        if op_params:
+            obj.op_params = op_params
+        return obj
     if kind == "compose":
         # lazy import to avoid circular dependency at import-time
         from finmlkit.feature.kit import Compose  # type: ignore
-- 
2.43.0


From 40e280b52a07b57f1ff03504abc53a8869e94606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 13/80] fix: reloaded unary features lose the output name they
 were configured with

---
 finmlkit/feature/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index 1824e2f..e22b9d9 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -267,6 +267,8 @@ def transform_from_config(cfg: Dict[str, Any]) -> BaseTransform:
         obj = UnaryOpTransform(child, op_name, op)
         if op_params:
             obj.op_params = op_params
+        # Feature.apply names its output after the feature it is applied to
+        obj.produces = list(cfg.get("produces") or obj.produces)
         return obj
     if kind == "compose":
         # lazy import to avoid circular dependency at import-time
-- 
2.43.0


From f8d9a6a7c1723d64d6b1e081a4b2fd98839bf258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 14/80] fix: FeatureKit.save_config destroys the existing
 configuration when it fails

---
 finmlkit/feature/kit.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 1e21564..ea5b50e 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -1,6 +1,7 @@
 import pandas as pd
 import numpy as np
 import json
+import os
 import time
 
 from .base import BaseTransform, MinMaxOpTransform, BinaryOpTransform, ConstantOpTransform, UnaryOpTransform, SISOTransform, MISOTransform
@@ -965,8 +966,19 @@ class FeatureKit:
         }
 
     def save_config(self, path: str):
-        with open(path, "w", encoding="utf-8") as f:
-            json.dump(self.to_config(), f, ensure_ascii=False, indent=2)
+        # Serialize first and replace the file in one step, so that a failure never damages an existing configuration
+        text = json.dumps(self.to_config(), ensure_ascii=False, indent=2)
+        tmp_path = f"{os.fspath(path)}.tmp"
+        try:
+            with open(tmp_path, "w", encoding="utf-8") as f:
+                f.write(text)
+                f.flush()
+                os.fsync(f.fileno())
+            os.replace(tmp_path, path)
+        except Exception:
+            if os.path.exists(tmp_path):
+                os.remove(tmp_path)
+            raise
 
     @staticmethod
     def from_dict(cfg: dict) -> "FeatureKit":
-- 
2.43.0


From ea901a307c316506dc3b1b7eec59c95c28f9b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 15/80] fix: Compose renames columns of the caller's DataFrame

---
 finmlkit/feature/kit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index ea5b50e..a154f6c 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -709,8 +709,8 @@ class Compose(BaseTransform):
             # If consumers expect caching to materialize, FeatureKit handles DataFrame accumulation.
 
         # Return the final output Series with the composed name
-        current_series.name = final_name
-        return current_series
+        # (a renamed copy: the series may belong to the caller's DataFrame)
+        return current_series.rename(final_name)
 
     def __call__(self, x: pd.DataFrame, *, backend="nb") -> pd.Series:
         """
-- 
2.43.0


From 64890c756cb7d14a10f0bcedfe555e19f48ca246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 16/80] fix: topological order ignores dependencies on renamed
 and multi-output features

---
 finmlkit/feature/utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index e22b9d9..33118e0 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -370,6 +370,12 @@ def build_feature_graph(features: List["Feature"]) -> ComputationGraph:
     g = ComputationGraph()
     # Map of feature output names for cross-referencing
     outputs = {str(f.name): f for f in features if isinstance(f.name, (str,))}
+    # Columns materialized by each feature during FeatureKit.build (independent of custom feature names)
+    producers: Dict[str, List[str]] = {}
+    for f in features:
+        cols = f.transform.output_name
+        for col in ([cols] if isinstance(cols, str) else list(cols)):
+            producers.setdefault(col, []).append(str(f.name))
 
     def _child_out_names(t: BaseTransform) -> List[str]:
         if isinstance(t, (BinaryOpTransform, MinMaxOpTransform)):
@@ -404,4 +410,9 @@ def build_feature_graph(features: List["Feature"]) -> ComputationGraph:
                 continue
             if other_name in reqs:
                 g.add_edge(other_name, out_name)
+        # Dependencies on columns produced by renamed or multi-output features
+        for col in list(reqs) + _child_out_names(f.transform):
+            for producer in producers.get(col, []):
+                if producer != out_name:
+                    g.add_edge(producer, out_name)
     return g
-- 
2.43.0


From db1abe7a58089e5e971e5d1b552d162a0d9ba5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 17/80] fix: topological feature order differs between
 interpreter runs

---
 finmlkit/feature/kit.py   | 8 +++++---
 finmlkit/feature/utils.py | 5 +++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index a154f6c..4378eff 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -1001,9 +1001,11 @@ class FeatureKit:
         g = self.build_graph()
         names = [str(f.name) for f in self.features]
         name_set = set(names)
+        position = {n: i for i, n in reversed(list(enumerate(names)))}
         # Build subgraph edges between feature nodes
-        edges = {n: set() for n in name_set}
-        indeg = {n: 0 for n in name_set}
+        # (ties are resolved by the defined order: set order differs between interpreter runs)
+        edges = {n: set() for n in names}
+        indeg = {n: 0 for n in names}
         for src, dests in g.edges.items():
             if src not in name_set:
                 continue
@@ -1017,7 +1019,7 @@ class FeatureKit:
         while zero:
             n = zero.pop(0)
             order.append(n)
-            for d in list(edges.get(n, [])):
+            for d in sorted(edges.get(n, []), key=position.__getitem__):
                 indeg[d] -= 1
                 if indeg[d] == 0:
                     zero.append(d)
diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index 33118e0..d3e29b7 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -332,7 +332,8 @@ class ComputationGraph:
 
     def topological_sort(self) -> List[str]:
         # Kahn's algorithm
-        indeg = {n: 0 for n in self.nodes}
+        # (sorted: set order differs between interpreter runs)
+        indeg = {n: 0 for n in sorted(self.nodes)}
         for src, dests in self.edges.items():
             for d in dests:
                 indeg[d] = indeg.get(d, 0) + 1
@@ -341,7 +342,7 @@ class ComputationGraph:
         while zero:
             n = zero.pop(0)
             order.append(n)
-            for d in list(self.edges.get(n, [])):
+            for d in sorted(self.edges.get(n, [])):
                 indeg[d] -= 1
                 if indeg[d] == 0:
                     zero.append(d)
-- 
2.43.0


From b34ab8738237cf75fe5b0f7d644bfcb5d3883fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 18/80] fix: FeatureKit.build reuses the cached column of a
 different feature with the same output name

The values of a feature depended on the features listed before it, e.g. simple
and log returns of the same column, distinguished by custom feature names.
---
 finmlkit/feature/kit.py   | 10 +++++--
 finmlkit/feature/utils.py | 55 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 63 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 4378eff..07113b3 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -5,7 +5,7 @@ import os
 import time
 
 from .base import BaseTransform, MinMaxOpTransform, BinaryOpTransform, ConstantOpTransform, UnaryOpTransform, SISOTransform, MISOTransform
-from .utils import transform_to_config, transform_from_config, ComputationGraph, build_feature_graph
+from .utils import transform_to_config, transform_from_config, ComputationGraph, build_feature_graph, stale_columns
 from finmlkit.utils.log import get_logger
 
 logger = get_logger(__name__)
@@ -1057,12 +1057,16 @@ class FeatureKit:
             features_seq = topo_feats + remaining
 
         timing_info = {}
+        computed = {}  # column name -> transform whose result the DataFrame holds
 
         for feat in features_seq:
             if timeit:
                 start_time = time.time()
 
-            res = feat(df, cache=df, backend=backend)
+            # Columns computed by earlier features are reused, unless they only share their name
+            stale = stale_columns(feat.transform, computed)
+            visible = df.drop(columns=stale) if stale else df
+            res = feat(visible, cache=visible, backend=backend)
 
             if timeit:
                 elapsed = time.time() - start_time
@@ -1072,11 +1076,13 @@ class FeatureKit:
             if isinstance(res, pd.Series):
                 # Single output transform case
                 out[feat.name] = res
+                computed[feat.transform.output_name] = feat.transform
                 df[feat.transform.output_name] = res  # cache the result in the DataFrame (for compose transforms)
             elif isinstance(res, tuple):
                 # Multi output transform case
                 for item in res:
                     out[item.name] = item
+                    computed[item.name] = feat.transform
                     df[item.name] = item  # cache the result in the DataFrame (for compose transforms)
             else:
                 raise TypeError(f"Transform {feat} returned unexpected type: {type(res)}")
diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index d3e29b7..75752c8 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -313,6 +313,61 @@ def transform_from_config(cfg: Dict[str, Any]) -> BaseTransform:
         return obj
 
 
+# --- Cache validity -----------------------------------------------------------
+
+def _same_computation(a: Any, b: Any) -> bool:
+    """Whether two transforms (or their parameters) describe the same computation."""
+    if a is b:
+        return True
+    if type(a) is not type(b):
+        return False
+    if isinstance(a, BaseTransform):
+        return _same_computation(vars(a), vars(b))
+    if isinstance(a, dict):
+        return a.keys() == b.keys() and all(_same_computation(a[k], b[k]) for k in a)
+    if isinstance(a, (list, tuple)):
+        return len(a) == len(b) and all(_same_computation(u, v) for u, v in zip(a, b))
+    if inspect.isfunction(a):
+        def captured(f):
+            return [c.cell_contents for c in f.__closure__ or ()], f.__defaults__, f.__kwdefaults__
+        return a.__code__ is b.__code__ and _same_computation(captured(a), captured(b))
+    try:
+        return bool(a == b)
+    except Exception:
+        return False
+
+
+def _walk_transforms(t: BaseTransform):
+    """Yield a transform and all transforms nested in it."""
+    yield t
+    for child in (getattr(t, "left", None), getattr(t, "right", None), getattr(t, "transform", None)):
+        if isinstance(child, BaseTransform):
+            yield from _walk_transforms(child)
+    steps = getattr(t, "transforms", None)
+    if isinstance(steps, (list, tuple)):
+        for step in steps:
+            yield from _walk_transforms(step)
+
+
+def stale_columns(t: BaseTransform, computed: Dict[str, BaseTransform]) -> List[str]:
+    """
+    Names of computed columns which share their name with a (nested) output of the transform,
+    but hold the result of a different computation.
+
+    :param t: The transform to be evaluated
+    :param computed: The transforms whose results are cached, by column name
+    :return: Columns that must not be reused when evaluating the transform
+    """
+    required = set(_flatten_requires(t))
+    stale = []
+    for n in _walk_transforms(t):
+        names = [n.output_name] if isinstance(n.output_name, str) else list(n.output_name)
+        for col in names + list(n.produces):
+            if col in computed and col not in required and not _same_computation(computed[col], n):
+                stale.append(col)
+    return list(dict.fromkeys(stale))
+
+
 # --- Graph utilities ----------------------------------------------------------
 
 class ComputationGraph:
-- 
2.43.0


From 2121d3b9c0c2e0be67b4cb3b5b5ce9a390ef6b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 19/80] fix: buyer-maker flags are assigned to the wrong trades
 when trades are reordered or deduplicated

---
 finmlkit/bar/data_model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index e91437d..e18fc82 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -299,6 +299,10 @@ class TradesData:
         self.data_ok = True
         self.discontinuities = []  # Reset discontinuities list
 
+        # The side information has to be reordered and deduplicated together with the trades
+        if self.is_buyer_maker is not None:
+            self._data['is_buyer_maker'] = self.is_buyer_maker
+
         # Sort by ID to inspect data integrity
         self.data.sort_values(by=['id'], inplace=True)
         # Reset index
@@ -323,6 +327,9 @@ class TradesData:
         # Reset index
         self.data.reset_index(drop=True, inplace=True)
 
+        if self.is_buyer_maker is not None:
+            self.is_buyer_maker = self._data.pop('is_buyer_maker').values
+
     def _merge_trades(self):
         """
         Merge trades that occur at the same timestamp and price level.
-- 
2.43.0


From e718cfb008ebfb819b89b294badef6a10743efa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 20/80] fix: a month whose save was interrupted before its
 metadata was written can never be saved again

---
 finmlkit/bar/data_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index e18fc82..49ff715 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -505,7 +505,8 @@ class TradesData:
             if month_exists and should_overwrite:
                 logger.info(f"Overwriting existing data for {month_key}...")
                 store.remove(h5_key)
-                store.remove(meta_key)
+                if meta_key in store:  # missing if an earlier save was interrupted
+                    store.remove(meta_key)
                 if integrity_key in store:
                     store.remove(integrity_key)
                 store.put(
-- 
2.43.0


From 4d0c730bfe860f154fe9aefca4298ac2fb4fdfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 21/80] fix: appending to a month replaces the metadata of the
 rows already stored

Range loads consult the first and last timestamp of the metadata and silently
skipped the rows of earlier chunks; integrity flags and discontinuities of
earlier chunks were lost.
---
 finmlkit/bar/data_model.py | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 49ff715..78332ff 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -501,6 +501,23 @@ class TradesData:
                         logger.info(f"Operation cancelled by user. No changes made to {month_key} data.")
                         return h5_key
 
+            # Metadata of the rows already stored for this month, if they are kept
+            previous_meta = None
+            if month_exists and not should_overwrite:
+                if meta_key in store:
+                    previous_meta = store[meta_key]
+                else:
+                    stored_ts = store.select_column(h5_key, "timestamp")
+                    previous_meta = pd.Series(
+                        {
+                            "record_count": len(stored_ts),
+                            "first_timestamp": int(stored_ts.min()),
+                            "last_timestamp": int(stored_ts.max()),
+                            "data_integrity_ok": None,
+                            "missing_pct": 0,
+                        }
+                    )
+
             # Handle data writing
             if month_exists and should_overwrite:
                 logger.info(f"Overwriting existing data for {month_key}...")
@@ -551,6 +568,8 @@ class TradesData:
                     "missing_pct": self.missing_pct     # Add count of discontinuities
                 }
             )
+            if previous_meta is not None:
+                meta = self._combine_meta(previous_meta, meta, len(frame))
             store.put(meta_key, meta, format="fixed")
 
             # ------------------------------------------------------------------
@@ -574,6 +593,8 @@ class TradesData:
                 # Save discontinuity data as DataFrame
                 if discontinuity_data:
                     disc_df = pd.DataFrame(discontinuity_data)
+                    if previous_meta is not None and integrity_key in store:
+                        disc_df = pd.concat([store[integrity_key], disc_df], ignore_index=True)
                     store.put(integrity_key, disc_df, format="table")
                     logger.info(f"Saved {len(disc_df)} trade ID discontinuities to metadata.")
 
@@ -581,6 +602,22 @@ class TradesData:
 
         return h5_key
 
+    @staticmethod
+    def _combine_meta(previous: pd.Series, meta: pd.Series, n_new: int) -> pd.Series:
+        """Internal helper – metadata of a monthly group after appending *n_new* rows to it."""
+        meta = meta.copy()
+        n_old = max(int(meta["record_count"]) - n_new, 0)
+        meta["first_timestamp"] = min(int(previous["first_timestamp"]), int(meta["first_timestamp"]))
+        meta["last_timestamp"] = max(int(previous["last_timestamp"]), int(meta["last_timestamp"]))
+        flags = (previous["data_integrity_ok"], meta["data_integrity_ok"])
+        if any(pd.isna(f) for f in flags):
+            meta["data_integrity_ok"] = False if any(not pd.isna(f) and not f for f in flags) else None
+        else:
+            meta["data_integrity_ok"] = bool(all(flags))
+        n_total = max(n_old + n_new, 1)
+        meta["missing_pct"] = (previous["missing_pct"] * n_old + meta["missing_pct"] * n_new) / n_total
+        return meta
+
     # ------------------------------------------------------------------
     #  Reading helpers
     # ------------------------------------------------------------------
-- 
2.43.0


From 393ff0c51d64463e6c0d45a2f5082df42dd9704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 22/80] fix: months are silently missing from a load when a
 worker process dies

---
 finmlkit/bar/data_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 78332ff..6258490 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -7,6 +7,7 @@ from numpy.typing import NDArray
 from numba.typed import List as NumbaList
 import multiprocessing as mp
 from concurrent.futures import ProcessPoolExecutor, as_completed
+from concurrent.futures.process import BrokenProcessPool
 import sys
 
 from finmlkit.bar.utils import footprint_to_dataframe
@@ -762,6 +763,8 @@ class TradesData:
                             df = future.result()
                             if not df.empty:
                                 results_by_key[h5_key] = df
+                        except BrokenProcessPool:
+                            raise  # a worker died, the groups themselves are fine: load sequentially
                         except Exception as e:
                             logger.error(f"Error loading {h5_key}: {str(e)}")
                             # Continue with other groups instead of failing completely
-- 
2.43.0


From 2dc614e020e37ef11a83dd37118f5e13ac412074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 23/80] fix: klines whose build was interrupted before their
 metadata was written stay invisible forever

---
 finmlkit/bar/io.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 956336c..0c863c1 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -467,11 +467,13 @@ class AddTimeBarH5:
 
         # Derive timebar key from trade key
         timebar_key = key.replace('/trades/', '/klines/')
+        meta_key = timebar_key.replace('/klines/', '/klines_meta/')
         month_key = key.split('/')[-1]
 
         # Check if time bars already exist
         with pd.HDFStore(self.h5_path, mode='r') as store:
-            if timebar_key in store and not overwrite:
+            # (klines without metadata are the remains of an interrupted build)
+            if timebar_key in store and meta_key in store and not overwrite:
                 logger.info(f"Time bars already exist for {month_key}. Skipping. Use overwrite=True to rebuild.")
                 return False
 
@@ -487,7 +489,10 @@ class AddTimeBarH5:
         # Save time bars to H5 store
         logger.info(f"Saving time bars for {month_key}...")
         with pd.HDFStore(self.h5_path, mode='a') as store:
-            if timebar_key in store and overwrite:
+            # The metadata marks complete klines: it is removed first and written last
+            if meta_key in store:
+                store.remove(meta_key)
+            if timebar_key in store:
                 store.remove(timebar_key)
 
             store.put(
@@ -498,7 +503,6 @@ class AddTimeBarH5:
             )
 
             # Add metadata
-            meta_key = timebar_key.replace('/klines/', '/klines_meta/')
             metadata = pd.Series({
                 'record_count': len(bars_df),
                 'first_timestamp': bars_df.index[0].value,
@@ -506,8 +510,6 @@ class AddTimeBarH5:
                 'original_trades_key': key
             })
 
-            if meta_key in store:
-                store.remove(meta_key)
             store.put(meta_key, metadata, format='fixed')
 
         logger.info(f"Successfully added time bars for {month_key}. Created {len(bars_df)} bars.")
-- 
2.43.0


From f14f7b54599506cce8ced8bcc24be1acd74432f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 24/80] fix: interrupted downloads are taken for complete files
 by later runs

---
 scripts/binance2h5.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scripts/binance2h5.py b/scripts/binance2h5.py
index 24832ad..4d04a47 100644
--- a/scripts/binance2h5.py
+++ b/scripts/binance2h5.py
@@ -307,6 +307,8 @@ def build_urls(market: str, symbol: str, month: Month) -> Tuple[str, str]:
 
 
 def download_file(url: str, dest_path: str, session: requests.Session, retries: int = 3) -> bool:
+    # Only complete files may appear under the final name: later runs take existing files as downloaded
+    part_path = dest_path + '.part'
     for attempt in range(retries):
         try:
             with session.get(url, stream=True, timeout=60) as r:
@@ -314,14 +316,19 @@ def download_file(url: str, dest_path: str, session: requests.Session, retries:
                     return False
                 r.raise_for_status()
                 total = int(r.headers.get('content-length', 0))
-                with open(dest_path, 'wb') as f, tqdm(
+                written = 0
+                with open(part_path, 'wb') as f, tqdm(
                     total=total if total > 0 else None, unit='B', unit_scale=True, desc=os.path.basename(dest_path), leave=False
                 ) as pbar:
                     for chunk in r.iter_content(chunk_size=1024 * 1024):
                         if chunk:
                             f.write(chunk)
+                            written += len(chunk)
                             if total > 0:
                                 pbar.update(len(chunk))
+                if total > 0 and not r.headers.get('content-encoding') and written != total:
+                    raise IOError(f"Incomplete download of {url}: {written} of {total} bytes")
+            os.replace(part_path, dest_path)
             return True
         except Exception:
             if attempt == retries - 1:
-- 
2.43.0


From af464f1514132d1695cac57fc81b140806642c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 25/80] fix: a damaged CHECKSUM file blocks its month forever

---
 scripts/binance2h5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/binance2h5.py b/scripts/binance2h5.py
index 4d04a47..107e295 100644
--- a/scripts/binance2h5.py
+++ b/scripts/binance2h5.py
@@ -390,6 +390,10 @@ def orchestrate_symbol(symbol: str, market: str, start: Month, end: Month, workd
         # Verify checksum if possible
         if not verify_zip_checksum(file_zip, file_chk):
             print(f"[warn] Checksum mismatch: {file_zip}. Will re-download once.")
+            try:
+                download_file(url_chk, file_chk, session)  # the CHECKSUM itself may be the damaged file
+            except Exception:
+                pass
             try:
                 if os.path.exists(file_zip):
                     os.remove(file_zip)
-- 
2.43.0


From 56b42a886c3d37350ce3d7a01596741f541e2f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 26/80] fix: a failing save stops the import of all following
 months

---
 scripts/binance2h5.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scripts/binance2h5.py b/scripts/binance2h5.py
index 107e295..f06102d 100644
--- a/scripts/binance2h5.py
+++ b/scripts/binance2h5.py
@@ -221,8 +221,14 @@ def _writer_thread(queue: multiprocessing.Queue, h5_path: str, counters: dict, l
             break
         trades, date = item
         print(f"Writing {date} trades to {h5_path}...")
-        trades.save_h5(h5_path, mode='a', overwrite_month=True)
-        print(f"Finished writing {date} trades.")
+        try:
+            trades.save_h5(h5_path, mode='a', overwrite_month=True)
+            print(f"Finished writing {date} trades.")
+        except Exception as e:
+            # The writer has to go on with the remaining months
+            print(f"Error writing {date} trades: {e}")
+            with lock:
+                counters['errors'] += 1
         with lock:
             counters['consumed'] += 1
 
-- 
2.43.0


From 9688f9a8df088684e5bc4ad1c81a33f3ea86d293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 27/80] fix: the import waits forever if a worker process dies

---
 scripts/binance2h5.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/scripts/binance2h5.py b/scripts/binance2h5.py
index f06102d..62ae9dc 100644
--- a/scripts/binance2h5.py
+++ b/scripts/binance2h5.py
@@ -35,7 +35,8 @@ import re
 import zipfile
 from dataclasses import dataclass
 from hashlib import md5, sha256
-from multiprocessing import Pool
+from concurrent.futures import ProcessPoolExecutor
+from concurrent.futures.process import BrokenProcessPool
 from threading import Thread, Lock
 from typing import List, Optional, Tuple
 
@@ -241,8 +242,6 @@ def process_all(root_dir: str, h5_path: str, from_date: Optional[str] = None, da
     lock = Lock()
     writer = Thread(target=_writer_thread, args=(queue, h5_path, counters, lock))
     writer.start()
-    pool: Pool = Pool(workers)
-
     def on_done(output):
         if output:
             queue.put(output)
@@ -263,10 +262,22 @@ def process_all(root_dir: str, h5_path: str, from_date: Optional[str] = None, da
         pbar.update(1)
         pbar.set_postfix(queue=backlog, errors=err_count)
 
-    for zip_file in zip_files:
-        pool.apply_async(_process_task, args=(zip_file, from_date, dates), callback=on_done, error_callback=on_error)
-    pool.close()
-    pool.join()
+    def on_finished(future):
+        err = future.exception()
+        if err is not None:
+            on_error(err)
+        else:
+            on_done(future.result())
+
+    # (unlike multiprocessing.Pool, the executor reports tasks of workers that died instead of waiting for them forever)
+    with ProcessPoolExecutor(max_workers=workers) as pool:
+        for zip_file in zip_files:
+            try:
+                future = pool.submit(_process_task, zip_file, from_date, dates)
+            except BrokenProcessPool as err:
+                on_error(err)
+                continue
+            future.add_done_callback(on_finished)
 
     pbar.close()
     queue.put(None)
-- 
2.43.0


From 01dd7e1cfe858d7aeb74e1c2e8595b8b1ce8dc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 28/80] fix: process_key with a plain month key overwrites the
 klines with their metadata

---
 finmlkit/bar/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 0c863c1..3078a40 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -466,9 +466,9 @@ class AddTimeBarH5:
         logger = get_logger(__name__)
 
         # Derive timebar key from trade key
-        timebar_key = key.replace('/trades/', '/klines/')
-        meta_key = timebar_key.replace('/klines/', '/klines_meta/')
         month_key = key.split('/')[-1]
+        timebar_key = f'/klines/{month_key}'
+        meta_key = f'/klines_meta/{month_key}'
 
         # Check if time bars already exist
         with pd.HDFStore(self.h5_path, mode='r') as store:
-- 
2.43.0


From 7c3e192be82c60ee483da3c2866a5e93210a25a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 29/80] fix: the import never ends if worker processes cannot
 be started

---
 scripts/binance2h5.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/scripts/binance2h5.py b/scripts/binance2h5.py
index 62ae9dc..9b97180 100644
--- a/scripts/binance2h5.py
+++ b/scripts/binance2h5.py
@@ -269,19 +269,21 @@ def process_all(root_dir: str, h5_path: str, from_date: Optional[str] = None, da
         else:
             on_done(future.result())
 
-    # (unlike multiprocessing.Pool, the executor reports tasks of workers that died instead of waiting for them forever)
-    with ProcessPoolExecutor(max_workers=workers) as pool:
-        for zip_file in zip_files:
-            try:
-                future = pool.submit(_process_task, zip_file, from_date, dates)
-            except BrokenProcessPool as err:
-                on_error(err)
-                continue
-            future.add_done_callback(on_finished)
-
-    pbar.close()
-    queue.put(None)
-    writer.join()
+    try:
+        # (unlike multiprocessing.Pool, the executor reports tasks of workers that died instead of waiting for them forever)
+        with ProcessPoolExecutor(max_workers=workers) as pool:
+            for zip_file in zip_files:
+                try:
+                    future = pool.submit(_process_task, zip_file, from_date, dates)
+                except BrokenProcessPool as err:
+                    on_error(err)
+                    continue
+                future.add_done_callback(on_finished)
+    finally:
+        # The writer ends only when told so
+        pbar.close()
+        queue.put(None)
+        writer.join()
 
 
 # ------------------------- Network & Orchestration -------------------------
-- 
2.43.0


From 82b668bc4bf3a8ef717ea83fd0b582753f2b5ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 30/80] fix: concurrent first use of a bar builder can fail
 because only one of two cached arrays is set

---
 finmlkit/bar/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index ee523b9..01f4e3c 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -102,7 +102,8 @@ class BarBuilderBase(ABC):
         """
         Calculate and sets the close timestamps and indices if not already calculated.
         """
-        if self._close_ts is None and self._close_indices is None:
+        # (or: another thread may be between the two assignments)
+        if self._close_ts is None or self._close_indices is None:
             logger.info("Calculating bar close tick indices and timestamps...")
             self._close_ts, self._close_indices = self._comp_bar_close()
 
-- 
2.43.0


From 2edac5a8354b417e4e0a8f288a0dcbe5d3afeed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 31/80] fix: DirRunLen reads past the end of a single-element
 input

---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 2e89580..1f35fe2 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1649,7 +1649,7 @@ class DirRunLen(SISOTransform):
         n = len(x)
         run_lengths = np.zeros(n, dtype=np.int8)
 
-        if n == 0:
+        if n < 2:
             return run_lengths
 
         prev_sign = np.sign(x[1])
-- 
2.43.0


From 9c9c3dabeccae39b91df7e6d2b1b99e27c8a6b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 32/80] fix: CUSUM test reported its first warm value only
 after one more observation

---
 finmlkit/feature/core/structural_break/cusum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/structural_break/cusum.py b/finmlkit/feature/core/structural_break/cusum.py
index f2688e2..96a3203 100644
--- a/finmlkit/feature/core/structural_break/cusum.py
+++ b/finmlkit/feature/core/structural_break/cusum.py
@@ -226,7 +226,7 @@ def cusum_test_rolling(
     if window_size < warmup_period + 2:
         window_size = warmup_period + 2  # Minimum window size to allow for calculations
 
-    if n < warmup_period + 2:
+    if n < warmup_period + 1:
         return snt_up, snt_down, critical_values_up, critical_values_down  # Not enough data to process
 
     if n > window_size:
-- 
2.43.0


From b5f0bf42bd4c7a8ea15236e99164633287e91456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 33/80] fix: variance ratio values of the first bars depended
 on how many bars follow

---
 finmlkit/feature/core/volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index b7f5f0f..a221bb4 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -498,7 +498,7 @@ def variance_ratio_1_4_core(price: NDArray[np.float64], window: int, ddof: int,
     n = len(price)
     result = np.full(n, np.nan)
 
-    if n < window + 4:  # Need enough data for 4-bar returns plus window
+    if n < 5:  # Need enough data for a 4-bar return
         return result
 
     # Calculate 1-bar returns
-- 
2.43.0


From da917d87887634f5b60e899cbf9ee13835469ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 34/80] fix: developing volume profile used price levels that
 are only reached later

---
 finmlkit/feature/core/volume.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index 9f28c32..d8cc010 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -535,7 +535,13 @@ def volume_profile_developing(ts: np.ndarray, highs: np.ndarray, lows: np.ndarra
     developing_buy_volumes = np.zeros_like(price_levels_window, dtype=np.float32)
     developing_sell_volumes = np.zeros_like(price_levels_window, dtype=np.float32)
 
+    low_level = high_level = int(round(lows[start_idx] / price_tick))
+
     for t in range(start_idx, end_idx):
+        # The price range reached so far (the window also covers levels which are only reached later)
+        low_level = min(low_level, int(round(lows[t] / price_tick)))
+        high_level = max(high_level, int(round(highs[t] / price_tick)))
+
         # Aggregate the footprint data
         indices = np.searchsorted(price_levels_window, price_levels[t])
         developing_buy_volumes[indices] += buy_volumes[t]
@@ -559,8 +565,9 @@ def volume_profile_developing(ts: np.ndarray, highs: np.ndarray, lows: np.ndarra
                                                                va_pct)
         else:
             # Calculate the POC, HVA, and LVA
-            poc_price, hva_price, lva_price = comp_poc_hva_lva(price_levels_window, developing_total_volumes,
-                                                               va_pct)
+            reached = slice(low_level - min_price_level, high_level - min_price_level + 1)
+            poc_price, hva_price, lva_price = comp_poc_hva_lva(price_levels_window[reached],
+                                                               developing_total_volumes[reached], va_pct)
 
         poc_prices[t - start_idx] = poc_price
         hva_prices[t - start_idx] = hva_price
-- 
2.43.0


From b9f7a7d47d7e2d686accdc9ba974a50acd081954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 35/80] fix: return and label of events closed by the vertical
 barrier before the minimum close time

The touch index was the last trade in the window but the return stayed 0 (label 1)
when no trade of the window was later than the minimum close time.
---
 finmlkit/label/tbm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 4cca2b8..e3cb6b5 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -110,13 +110,13 @@ def triple_barrier(
         ret = 0.
         for j in range(t0_idx + 1, t1_idx + 1):
 
+            ret = (log_close[j] - base_price) * side_mult
+
             dur_ns = timestamps[j] - t0  # Duration in nanoseconds
             if dur_ns < min_close_time_ns:
-                # Cannot close until the minimum open time is reached
+                # Cannot close until the minimum open time is reached (unless the vertical barrier comes first)
                 continue
 
-            ret = (log_close[j] - base_price) * side_mult
-
             # progress towards barrier (skip if barrier is inf o r0)
             if ret > 0.0 and upper_valid:
                 # Approaching the upper barrier
-- 
2.43.0


From 251e177c5849b79eec3c8e951015fa0a5ff54e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 36/80] fix: return-barrier ratio below 1 when a barrier is hit
 by the last trade of the window

---
 finmlkit/label/tbm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index e3cb6b5..0e81d5b 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -108,6 +108,7 @@ def triple_barrier(
         max_lrbr = 0.0
         base_price = log_close[t0_idx]  # Base price for calculating returns
         ret = 0.
+        barrier_hit = False
         for j in range(t0_idx + 1, t1_idx + 1):
 
             ret = (log_close[j] - base_price) * side_mult
@@ -128,9 +129,11 @@ def triple_barrier(
             # Check if we touch the barrier
             if ret >= upper_barrier:
                 touch_idx = j
+                barrier_hit = True
                 break
             if ret <= lower_barrier:
                 touch_idx = j
+                barrier_hit = True
                 break
 
         # ---------- Assign the label and other values ------------
@@ -145,7 +148,7 @@ def triple_barrier(
             labels[i_event] = sign if sign != 0 else 1
 
 
-        if touch_idx == t1_idx:
+        if not barrier_hit:
             # Calculate the maximum return-barrier ratio based sample weight
             if ret > 0.:
                 max_rbr = max_urbr / (1 + max_lrbr)
-- 
2.43.0


From e642f3845ab23f8595344d3a1371fd035c8ded44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 37/80] fix: events entered later than their timestamp were
 labelled before their time limit was covered by trades

---
 finmlkit/label/kit.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/finmlkit/label/kit.py b/finmlkit/label/kit.py
index 776ea1f..665c486 100644
--- a/finmlkit/label/kit.py
+++ b/finmlkit/label/kit.py
@@ -265,8 +265,20 @@ class TBMLabel:
         :param trades: Raw trades data the events will be evaluated.
         :return: Trimmed features DataFrame with events that are within the base series.
         """
-        last_trade_timestamp = pd.Timestamp(trades.data.timestamp.values[-1], unit='ns')
-        return self._orig_features[self._orig_features.index + pd.Timedelta(self.vertical_barrier, unit="s") <= last_trade_timestamp]
+        timestamps = trades.data.timestamp.values
+        last_trade_timestamp = pd.Timestamp(timestamps[-1], unit='ns')
+        vertical_barrier = pd.Timedelta(self.vertical_barrier, unit="s")
+        x = self._orig_features
+        x = x[x.index + vertical_barrier <= last_trade_timestamp]
+        # The window is measured from the trade the event is entered with, which can be later than the event itself
+        entry_time = pd.to_datetime(timestamps[self._event_idx(x, timestamps)])
+        return x[entry_time + vertical_barrier <= last_trade_timestamp]
+
+    @staticmethod
+    def _event_idx(x: pd.DataFrame, timestamps) -> np.ndarray:
+        if "event_idx" in x.columns:
+            return x.event_idx.values
+        return np.searchsorted(timestamps, x.index.values.astype(np.int64))
 
 
     def compute_labels(self, trades: TradesData) -> tuple[pd.DataFrame, pd.DataFrame]:
@@ -282,10 +294,7 @@ class TBMLabel:
             raise ValueError("Trades must be an instance of TradesData.")
         self._features = self._drop_trailing_events(trades)
 
-        if "event_idx" in self._features.columns:
-            event_idx = self._features.event_idx.values
-        else:
-            event_idx = np.searchsorted(trades.data.timestamp.values, self._features.index.values.astype(np.int64))
+        event_idx = self._event_idx(self._features, trades.data.timestamp.values)
 
         # Call the triple_barrier function
         labels, touch_idx, rets, max_rb_ratios = triple_barrier(
-- 
2.43.0


From 6f67de58dd99111b0bcf8d444c537889382c03cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 38/80] fix: time limit and minimum close time were one
 nanosecond short for some durations

---
 finmlkit/label/tbm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 0e81d5b..cea390d 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -64,8 +64,8 @@ def triple_barrier(
     n_events = len(event_idxs)  # Number of events (subset of samples)
     bottom_mult, top_mult = horizontal_barriers
     # Convert to integer nanoseconds (float64 cannot represent epoch timestamps to the nanosecond)
-    vertical_barrier_ns = np.int64(min(round(vertical_barrier, 9) * 1e9, 4e18))
-    min_close_time_ns = min_close_time_sec * 1e9    # Convert to nanoseconds
+    vertical_barrier_ns = np.int64(round(min(vertical_barrier * 1e9, 4e18)))
+    min_close_time_ns = np.int64(round(min(min_close_time_sec * 1e9, 4e18)))
 
     log_close = np.log(close)  # Precompute log of close prices for efficiency
 
-- 
2.43.0


From 095381137c1e1ca96ea032dfb08588b15ab82869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 39/80] fix: trades on different price levels were merged for
 assets with a tick of 1e-8

---
 finmlkit/bar/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/utils.py b/finmlkit/bar/utils.py
index a1a3dee..10bbf74 100644
--- a/finmlkit/bar/utils.py
+++ b/finmlkit/bar/utils.py
@@ -298,8 +298,9 @@ def merge_split_trades(
 
     merged_idx = 0
     for i in range(1, n):
+        # (relative tolerance: the price tick of low priced assets is 1e-8)
         same_trade = (timestamps[i] == merged_timestamps[merged_idx] and
-                      abs(prices[i] - merged_prices[merged_idx]) < 1e-8)
+                      abs(prices[i] - merged_prices[merged_idx]) <= 1e-12 * abs(merged_prices[merged_idx]))
 
         if with_side:
             same_trade &= is_buyer_maker[i] == (merged_side[merged_idx] == -1)
-- 
2.43.0


From 79057245e0c94d19a005b424fdf31b4b8d7a0510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 40/80] fix: preprocessing discarded the trade side given to
 TradesData and inferred another one

---
 finmlkit/bar/data_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 6258490..9e42a17 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -175,6 +175,8 @@ class TradesData:
         if preprocess:
             if id is None:
                 raise ValueError("id is required if preprocess is True")
+            if is_buyer_maker is None and side is not None:
+                self.is_buyer_maker = side < 0  # the form in which sorting and merging carry the side along
             self._convert_timestamps_to_ns()
             self._sort_trades()
             self._merge_trades()
-- 
2.43.0


From 6b05d0eb82ac973eac7a4c2e94df9ed41ca8e965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:50 +0000
Subject: [PATCH 41/80] fix: a full disk while saving destroyed every month of
 the file without an error

---
 finmlkit/bar/data_model.py | 32 ++++++++++++++++++++++++++++++++
 finmlkit/bar/io.py         |  3 ++-
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 9e42a17..008deb8 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -9,6 +9,7 @@ import multiprocessing as mp
 from concurrent.futures import ProcessPoolExecutor, as_completed
 from concurrent.futures.process import BrokenProcessPool
 import sys
+import tempfile
 
 from finmlkit.bar.utils import footprint_to_dataframe
 from finmlkit.utils.log import get_logger
@@ -475,6 +476,8 @@ class TradesData:
         # It is already indexed!
         frame = self.data
 
+        reserve_disk_space(filepath, 2 * int(frame.memory_usage(deep=True).sum()) + H5_OVERHEAD_BYTES, new_file=mode == "w")
+
         # ------------------------------------------------------------------
         #  Write / append to the store
         # ------------------------------------------------------------------
@@ -1111,6 +1114,35 @@ class FootprintData:
 # --------
 # utils
 # --------
+H5_OVERHEAD_BYTES = 16 * 1024 ** 2  # generous allowance for chunk padding and metadata of one monthly group
+
+
+def reserve_disk_space(filepath: str, n_bytes: int, new_file: bool = False) -> None:
+    """
+    Reserve space for *n_bytes* to be added to an HDF5 file, so that a full disk raises before the file is touched.
+    (HDF5 does not report writes that fail while it closes a file, and such a file, with all its groups, cannot be opened again.)
+    What is reserved but not used is given back when the file is closed by HDF5.
+
+    :param filepath: Path of the HDF5 file, existing or not.
+    :param n_bytes: Upper bound of the bytes to be added.
+    :param new_file: True if an existing file is going to be replaced.
+    :raises OSError: If the space is not available.
+    """
+    if not hasattr(os, "posix_fallocate"):  # not available on this platform
+        return
+    size = 0 if new_file or not os.path.exists(filepath) else os.path.getsize(filepath)
+    if size > 0:
+        with open(filepath, "r+b") as f:
+            try:
+                os.posix_fallocate(f.fileno(), size, n_bytes)
+            except OSError:
+                f.truncate(size)
+                raise
+    else:
+        with tempfile.TemporaryFile(dir=os.path.dirname(os.path.abspath(filepath))) as f:
+            os.posix_fallocate(f.fileno(), 0, n_bytes)
+
+
 def _load_single_h5_group(args: Tuple[str, str, Optional[str]]) -> pd.DataFrame:
     """
     Helper function to load a single HDF5 group in a separate process.
diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 3078a40..84dfe58 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -5,7 +5,7 @@ import datetime as dt
 from finmlkit.utils.log import get_logger
 import multiprocessing
 from tqdm import tqdm
-from .data_model import TradesData
+from .data_model import TradesData, reserve_disk_space, H5_OVERHEAD_BYTES
 
 logger = get_logger(__name__)
 
@@ -488,6 +488,7 @@ class AddTimeBarH5:
 
         # Save time bars to H5 store
         logger.info(f"Saving time bars for {month_key}...")
+        reserve_disk_space(self.h5_path, 2 * int(bars_df.memory_usage(deep=True).sum()) + H5_OVERHEAD_BYTES)
         with pd.HDFStore(self.h5_path, mode='a') as store:
             # The metadata marks complete klines: it is removed first and written last
             if meta_key in store:
-- 
2.43.0


From eba137b57735849f1a9892c3e3f71758e5e28c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:30 +0000
Subject: [PATCH 42/80] fix: a process killed while saving to a new file left a
 file that no later save could open

---
 finmlkit/bar/data_model.py | 44 ++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 008deb8..185f5e3 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -9,7 +9,6 @@ import multiprocessing as mp
 from concurrent.futures import ProcessPoolExecutor, as_completed
 from concurrent.futures.process import BrokenProcessPool
 import sys
-import tempfile
 
 from finmlkit.bar.utils import footprint_to_dataframe
 from finmlkit.utils.log import get_logger
@@ -476,7 +475,11 @@ class TradesData:
         # It is already indexed!
         frame = self.data
 
-        reserve_disk_space(filepath, 2 * int(frame.memory_usage(deep=True).sum()) + H5_OVERHEAD_BYTES, new_file=mode == "w")
+        if mode == "w" or (mode == "a" and not os.path.exists(filepath)):
+            # An HDF5 file that is being created cannot be opened if the process dies: start from a complete empty file
+            create_empty_store(filepath)
+            mode = "a"
+        reserve_disk_space(filepath, 2 * int(frame.memory_usage(deep=True).sum()) + H5_OVERHEAD_BYTES)
 
         # ------------------------------------------------------------------
         #  Write / append to the store
@@ -1117,30 +1120,39 @@ class FootprintData:
 H5_OVERHEAD_BYTES = 16 * 1024 ** 2  # generous allowance for chunk padding and metadata of one monthly group
 
 
-def reserve_disk_space(filepath: str, n_bytes: int, new_file: bool = False) -> None:
+def create_empty_store(filepath: str) -> None:
+    """
+    Create an empty HDF5 file, replacing an existing one. The file appears under its name only when it is complete.
+
+    :param filepath: Path of the HDF5 file.
+    """
+    tmp_path = f"{filepath}.new"
+    with pd.HDFStore(tmp_path, mode="w"):
+        pass
+    with pd.HDFStore(tmp_path, mode="r"):  # raises if it could not be written
+        pass
+    os.replace(tmp_path, filepath)
+
+
+def reserve_disk_space(filepath: str, n_bytes: int) -> None:
     """
     Reserve space for *n_bytes* to be added to an HDF5 file, so that a full disk raises before the file is touched.
     (HDF5 does not report writes that fail while it closes a file, and such a file, with all its groups, cannot be opened again.)
     What is reserved but not used is given back when the file is closed by HDF5.
 
-    :param filepath: Path of the HDF5 file, existing or not.
+    :param filepath: Path of an existing HDF5 file.
     :param n_bytes: Upper bound of the bytes to be added.
-    :param new_file: True if an existing file is going to be replaced.
     :raises OSError: If the space is not available.
     """
     if not hasattr(os, "posix_fallocate"):  # not available on this platform
         return
-    size = 0 if new_file or not os.path.exists(filepath) else os.path.getsize(filepath)
-    if size > 0:
-        with open(filepath, "r+b") as f:
-            try:
-                os.posix_fallocate(f.fileno(), size, n_bytes)
-            except OSError:
-                f.truncate(size)
-                raise
-    else:
-        with tempfile.TemporaryFile(dir=os.path.dirname(os.path.abspath(filepath))) as f:
-            os.posix_fallocate(f.fileno(), 0, n_bytes)
+    size = os.path.getsize(filepath)
+    with open(filepath, "r+b") as f:
+        try:
+            os.posix_fallocate(f.fileno(), size, n_bytes)
+        except OSError:
+            f.truncate(size)
+            raise
 
 
 def _load_single_h5_group(args: Tuple[str, str, Optional[str]]) -> pd.DataFrame:
-- 
2.43.0


From bceef17d6110138df39f84f0956e97ba72a3a57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:30 +0000
Subject: [PATCH 43/80] fix: metadata left half-written by an interrupted save
 made every time range unreadable

---
 finmlkit/bar/data_model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 185f5e3..defd53f 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -639,9 +639,14 @@ class TradesData:
         """
         candidate_keys: list[str] = []
         for meta_key in (k for k in store.keys() if k.startswith("/meta/")):
-            meta = store[meta_key]
-            first = pd.to_datetime(meta["first_timestamp"], unit="ns")
-            last = pd.to_datetime(meta["last_timestamp"], unit="ns")
+            try:
+                meta = store[meta_key]
+                first = pd.to_datetime(meta["first_timestamp"], unit="ns")
+                last = pd.to_datetime(meta["last_timestamp"], unit="ns")
+            except Exception as e:
+                # The remains of an interrupted save must not make the other months unreadable
+                logger.warning(f"Unreadable metadata {meta_key}, save that month again: {e}")
+                continue
             if (end is None or first <= end) and (start is None or last >= start):
                 # If there is intersection, add the corresponding trades key
                 candidate_keys.append(meta_key.replace("/meta", "/trades"))
-- 
2.43.0


From 70cf6d6b663a2792a4485fbb14d734be173a2ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:33 +0000
Subject: [PATCH 44/80] fix: a month whose metadata was half-written by an
 interrupted save could not be appended to

---
 finmlkit/bar/data_model.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index defd53f..556f951 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -513,19 +513,20 @@ class TradesData:
             # Metadata of the rows already stored for this month, if they are kept
             previous_meta = None
             if month_exists and not should_overwrite:
-                if meta_key in store:
+                try:
                     previous_meta = store[meta_key]
-                else:
+                except Exception:  # missing or half-written if an earlier save was interrupted
                     stored_ts = store.select_column(h5_key, "timestamp")
-                    previous_meta = pd.Series(
-                        {
-                            "record_count": len(stored_ts),
-                            "first_timestamp": int(stored_ts.min()),
-                            "last_timestamp": int(stored_ts.max()),
-                            "data_integrity_ok": None,
-                            "missing_pct": 0,
-                        }
-                    )
+                    if len(stored_ts) > 0:
+                        previous_meta = pd.Series(
+                            {
+                                "record_count": len(stored_ts),
+                                "first_timestamp": int(stored_ts.min()),
+                                "last_timestamp": int(stored_ts.max()),
+                                "data_integrity_ok": None,
+                                "missing_pct": 0,
+                            }
+                        )
 
             # Handle data writing
             if month_exists and should_overwrite:
-- 
2.43.0


From a417e895eb94aca38cd2415d897b3e71908ec5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 45/80] fix: gaps of an interrupted save were reported for the
 month saved anew

---
 finmlkit/bar/data_model.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 556f951..aa5c437 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -529,13 +529,14 @@ class TradesData:
                         )
 
             # Handle data writing
+            if should_overwrite or not month_exists:
+                # Nothing is kept of the month; an interrupted save may have left any part of it without the others
+                for old_key in (h5_key, meta_key, integrity_key):
+                    if old_key in store:
+                        store.remove(old_key)
+
             if month_exists and should_overwrite:
                 logger.info(f"Overwriting existing data for {month_key}...")
-                store.remove(h5_key)
-                if meta_key in store:  # missing if an earlier save was interrupted
-                    store.remove(meta_key)
-                if integrity_key in store:
-                    store.remove(integrity_key)
                 store.put(
                     key=h5_key,
                     value=frame,
-- 
2.43.0


From e95122cf96c8c285bf126a6ebe6aaa4f46ad0fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:27 +0000
Subject: [PATCH 46/80] fix: appending to a month whose table an interrupted
 save had not written yet failed

---
 finmlkit/bar/data_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index aa5c437..6c630ef 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -516,7 +516,8 @@ class TradesData:
                 try:
                     previous_meta = store[meta_key]
                 except Exception:  # missing or half-written if an earlier save was interrupted
-                    stored_ts = store.select_column(h5_key, "timestamp")
+                    has_rows = "table" in store.get_node(h5_key)
+                    stored_ts = store.select_column(h5_key, "timestamp") if has_rows else []
                     if len(stored_ts) > 0:
                         previous_meta = pd.Series(
                             {
-- 
2.43.0


From bc37dd9c6ede41db37c4d11e1973bd20fb67f92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:17 +0000
Subject: [PATCH 47/80] fix: a month whose metadata could not be read was left
 out of a load without an error

---
 finmlkit/bar/data_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 6c630ef..0ef704b 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -647,8 +647,10 @@ class TradesData:
                 first = pd.to_datetime(meta["first_timestamp"], unit="ns")
                 last = pd.to_datetime(meta["last_timestamp"], unit="ns")
             except Exception as e:
-                # The remains of an interrupted save must not make the other months unreadable
+                # An interrupted save may have left this: the trades themselves tell if they are in the range
                 logger.warning(f"Unreadable metadata {meta_key}, save that month again: {e}")
+                if meta_key.replace("/meta", "/trades") in store:
+                    candidate_keys.append(meta_key.replace("/meta", "/trades"))
                 continue
             if (end is None or first <= end) and (start is None or last >= start):
                 # If there is intersection, add the corresponding trades key
-- 
2.43.0


From 22fac12f10713a888b74123de7ca5514eee1f78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:17 +0000
Subject: [PATCH 48/80] fix: loading overlapping saves shuffled the trades of
 the same nanosecond

---
 finmlkit/bar/data_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 0ef704b..c469886 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -827,7 +827,7 @@ class TradesData:
         # Ensure the DataFrame index is sorted
         if not df.index.is_monotonic_increasing:
             logger.info("Sorting DataFrame by datetime index after concatenation...")
-            df.sort_index(inplace=True)
+            df.sort_index(inplace=True, kind="stable")  # trades of the same nanosecond stay in the order they were saved in
 
         logger.info(f"Successfully loaded {len(df):,} trades from {len(frames)} monthly groups.")
 
-- 
2.43.0


From e112698775e1cb74f9c7aab59d3e3d9a40300c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 49/80] fix: time gaps of a month appended in another order
 were reported between the wrong trades

---
 finmlkit/bar/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 84dfe58..0bb3dbc 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -21,6 +21,8 @@ def _find_gaps(key: str, filepath: str, max_gap: pd.Timedelta) -> Tuple[str, lis
     """
     with pd.HDFStore(filepath, mode='r') as store:
         df = store[key]
+        if not df.index.is_monotonic_increasing:  # appended in another order
+            df = df.sort_index()
         diff_series = df.index.to_series().diff()
         gap_mask = diff_series > max_gap
         gap_timestamps = df.index[gap_mask].tolist()
-- 
2.43.0


From e0fe7a0d8f4395135587296b85dbd562a099fb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 50/80] fix: klines metadata left half-written by an
 interrupted build made the reader fail and the month unbuildable

---
 finmlkit/bar/io.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 0bb3dbc..4626dda 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -310,6 +310,24 @@ class H5Inspector:
         return result
 
 
+def _klines_range(store: pd.HDFStore, meta_key: str) -> Optional[Tuple[pd.Timestamp, pd.Timestamp]]:
+    """
+    First and last timestamp of the klines described by a metadata group.
+
+    :param store: Open HDF5 store.
+    :param meta_key: Metadata key ('/klines_meta/YYYY-MM').
+    :return: First and last timestamp, None if the metadata is missing or half-written (the build was interrupted).
+    """
+    if meta_key not in store:
+        return None
+    try:
+        metadata = store[meta_key]
+        return pd.to_datetime(metadata['first_timestamp'], unit='ns'), pd.to_datetime(metadata['last_timestamp'], unit='ns')
+    except (AttributeError, LookupError, TypeError, ValueError) as e:
+        logger.warning(f"Incomplete metadata {meta_key}, build the klines of that month again: {e}")
+        return None
+
+
 class AddTimeBarH5:
     r"""Utility class for building and persisting 1-second time bars from trades data stored in HDF5 format.
 
@@ -475,7 +493,7 @@ class AddTimeBarH5:
         # Check if time bars already exist
         with pd.HDFStore(self.h5_path, mode='r') as store:
             # (klines without metadata are the remains of an interrupted build)
-            if timebar_key in store and meta_key in store and not overwrite:
+            if timebar_key in store and not overwrite and _klines_range(store, meta_key) is not None:
                 logger.info(f"Time bars already exist for {month_key}. Skipping. Use overwrite=True to rebuild.")
                 return False
 
@@ -720,9 +738,10 @@ class TimeBarReader:
             meta_keys = [k for k in store.keys() if k.startswith('/klines_meta/')]
 
             for meta_key in meta_keys:
-                metadata = store[meta_key]
-                current_first = pd.to_datetime(metadata['first_timestamp'], unit='ns')
-                current_last = pd.to_datetime(metadata['last_timestamp'], unit='ns')
+                key_range = _klines_range(store, meta_key)
+                if key_range is None:
+                    continue
+                current_first, current_last = key_range
 
                 if first_timestamp is None or current_first < first_timestamp:
                     first_timestamp = current_first
@@ -751,9 +770,10 @@ class TimeBarReader:
 
         with pd.HDFStore(self.h5_path, mode='r') as store:
             for meta_key in [k for k in store.keys() if k.startswith('/klines_meta/')]:
-                metadata = store[meta_key]
-                key_first = pd.to_datetime(metadata['first_timestamp'], unit='ns')
-                key_last = pd.to_datetime(metadata['last_timestamp'], unit='ns')
+                key_range = _klines_range(store, meta_key)
+                if key_range is None:
+                    continue
+                key_first, key_last = key_range
 
                 # Check if key's time range intersects with requested time range
                 if ((start_time is None or key_last >= start_time) and
-- 
2.43.0


From 48c793f5624d8fbf3b3b278ced24a4dfba6f894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 51/80] fix: AddTimeBarH5 rejected months given as documented
 (YYYY-MM)

---
 finmlkit/bar/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 4626dda..e026c75 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -451,6 +451,7 @@ class AddTimeBarH5:
     def _check_keys(self, keys: list[str]):
         available_keys = self._list_keys()
         if keys:
+            keys = [key if key.startswith('/trades/') else f'/trades/{key}' for key in keys]
             missing_keys = [key for key in keys if key not in available_keys]
             if missing_keys:
                 raise KeyError(f"Missing keys: {missing_keys}\nAvailable keys: {available_keys}")
-- 
2.43.0


From 524b1ecc6202128e467ebbdfff6caae3964023f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 52/80] fix: resampled time bars contained periods without
 trades

---
 finmlkit/bar/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index e026c75..312d65f 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -970,7 +970,8 @@ class TimeBarReader:
         )
 
         # ---------- final cleanup -----------------------------------------
-        # Drop periods with no trades (NaN open). Keeps index monotone.
+        # Drop periods with no trades (NaN open, or nothing but empty 1-second bars). Keeps index monotone.
         resampled = resampled.dropna(subset=["open"])
+        resampled = resampled[resampled["trades"] > 0]
 
         return resampled
-- 
2.43.0


From 70ef1aff545149d42b696a76e4eb9dc72c52cc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 53/80] fix: time bars of months with overridden keys were read
 out of order

---
 finmlkit/bar/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 312d65f..ef83e6d 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -888,6 +888,8 @@ class TimeBarReader:
             return pd.DataFrame()
 
         df = pd.concat(dfs)
+        if not df.index.is_monotonic_increasing:  # a month key may hold any time range
+            df = df.sort_index(kind="stable")
 
         # Filter by time range if needed - using the index
         if start_time is not None or end_time is not None:
-- 
2.43.0


From 4179351db97f6d098d3569ed86ea7edf8b4fdd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 54/80] fix: resampling a range between two bars raised instead
 of returning no bars

---
 finmlkit/bar/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index ef83e6d..508939f 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -896,8 +896,8 @@ class TimeBarReader:
             df = df[(df.index >= start_time if start_time is not None else True) &
                    (df.index <= end_time if end_time is not None else True)]
 
-        # Return original timeframe if no resampling requested
-        if timeframe is None:
+        # Return original timeframe if no resampling requested (or nothing to resample)
+        if timeframe is None or df.empty:
             return df
 
         # If we're resampling to a daily timeframe and we have an incomplete last day,
-- 
2.43.0


From 5480d8ea59603d20444bfacaf6865f20850ff4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 55/80] fix: reading time bars up to a nanosecond after
 midnight returned the whole following day

---
 finmlkit/bar/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 508939f..7b8483b 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -861,7 +861,7 @@ class TimeBarReader:
         # If end_time is provided as a date without time, set it to the end of that day
         # to make the range inclusive of the entire end date
         original_end_time = None
-        if end_time is not None and end_time.time() == dt.time(0, 0):
+        if end_time is not None and pd.Timestamp(end_time) == pd.Timestamp(end_time).normalize():
             original_end_time = end_time  # Store for later use in resampling
             end_time = end_time + pd.Timedelta(days=1) - pd.Timedelta(microseconds=1)
 
-- 
2.43.0


From cf41e7404f885832c6f81ca65fc349f49482e5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 56/80] fix: binance2h5 could not load archives whose CSV
 starts with a header row (futures markets)

---
 scripts/binance2h5.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/scripts/binance2h5.py b/scripts/binance2h5.py
index 9b97180..6752d7c 100644
--- a/scripts/binance2h5.py
+++ b/scripts/binance2h5.py
@@ -150,12 +150,9 @@ def load_csv_from_zip(zip_path: str) -> pd.DataFrame:
         name = members[0]
         with z.open(name) as f:
             raw = f.read()
-            buf = io.BytesIO(raw)
-            try:
-                df = pd.read_csv(buf, header=None)
-            except Exception:
-                buf.seek(0)
-                df = pd.read_csv(buf)
+            # (archives of the futures markets start with a header row)
+            header = 0 if raw[:1].isalpha() else None
+            df = pd.read_csv(io.BytesIO(raw), header=header)
     if df.shape[1] >= 6:
         cols = ['id', 'price', 'qty', 'quoteQty', 'time', 'isBuyerMaker', 'isBestMatch'][: df.shape[1]]
         df.columns = cols
-- 
2.43.0


From 3a8bfc72bc6c1c3c0e4b06c9cc958ec7589e5f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 57/80] fix: binance2h5 never replaced a damaged CHECKSUM file
 and skipped verification for good

---
 scripts/binance2h5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/binance2h5.py b/scripts/binance2h5.py
index 6752d7c..16fffe2 100644
--- a/scripts/binance2h5.py
+++ b/scripts/binance2h5.py
@@ -397,8 +397,8 @@ def orchestrate_symbol(symbol: str, market: str, start: Month, end: Month, workd
             if not ok:
                 print(f"[warn] Not found {url_zip}; skipping month {mon.ym()}")
                 continue
-        # Download CHECKSUM if missing
-        if not os.path.exists(file_chk):
+        # Download CHECKSUM if missing or damaged
+        if _read_checksum_file(file_chk) is None:
             try:
                 download_file(url_chk, file_chk, session)
             except Exception:
-- 
2.43.0


From aaec582708de26c667f714b67e945c5dbf7c3297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:59 +0000
Subject: [PATCH 58/80] fix: sample weights turned negative when more than
 32767 labels overlap

---
 finmlkit/label/kit.py     |  6 +++---
 finmlkit/label/weights.py | 38 +++++++++++++++++++++++++++++---------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/finmlkit/label/kit.py b/finmlkit/label/kit.py
index 665c486..d6d8408 100644
--- a/finmlkit/label/kit.py
+++ b/finmlkit/label/kit.py
@@ -1,6 +1,6 @@
 """ A API wrapper around the core numba function for better usability"""
 from .tbm import triple_barrier
-from .weights import average_uniqueness, return_attribution, time_decay, class_balance_weights
+from .weights import average_uniqueness, label_concurrency, return_attribution, time_decay, class_balance_weights
 from finmlkit.utils.log import get_logger
 from finmlkit.bar.data_model import TradesData
 import pandas as pd
@@ -361,7 +361,7 @@ class SampleWeights:
 
 
         # Compute average uniqueness weights
-        avg_u, concurrency = average_uniqueness(
+        avg_u, _ = average_uniqueness(
             timestamps=trades.data.timestamp.values,
             event_idxs=labels.event_idx.values,
             touch_idxs=labels.touch_idx.values
@@ -377,7 +377,7 @@ class SampleWeights:
             event_idxs=labels.event_idx.values,
             touch_idxs=labels.touch_idx.values,
             close=trades.data.price.values,
-            concurrency=concurrency,
+            concurrency=label_concurrency(len(trades.data), labels.event_idx.values, labels.touch_idx.values),
             normalize=normalize
         )
         out_df["return_attribution"] = info_w
diff --git a/finmlkit/label/weights.py b/finmlkit/label/weights.py
index 275275a..965e83c 100644
--- a/finmlkit/label/weights.py
+++ b/finmlkit/label/weights.py
@@ -4,6 +4,30 @@ from numpy.typing import NDArray
 from typing import Tuple
 
 
+@njit(nogil=True)
+def label_concurrency(
+        n: int,
+        event_idxs: NDArray[np.int64],
+        touch_idxs: NDArray[np.int64]
+) -> NDArray[np.int32]:
+    """
+    Count how many labels overlap at each timestamp.
+
+    :param n: The number of timestamps.
+    :param event_idxs: The indices of the labeled events.
+    :param touch_idxs: The touch indices for the given events.
+    :returns: The concurrency array (int32: on tick data more labels can overlap than int16 can count).
+    """
+    concurrency = np.zeros(n, dtype=np.int32)
+
+    for i in range(len(event_idxs)):
+        start_idx = event_idxs[i]
+        end_idx = touch_idxs[i]
+        concurrency[start_idx:end_idx+1] += 1  # return overlaps within [t-1, t]
+
+    return concurrency
+
+
 @njit(nogil=True, parallel=True)
 def average_uniqueness(
         timestamps: NDArray[np.int64],
@@ -19,7 +43,7 @@ def average_uniqueness(
     :param touch_idxs: The touch indices for the given events.
     :returns: A tuple with two arrays
         - The uniqueness weights [0, 1] for the label.
-        - The concurrency array, which indicates how many labels overlap at each timestamp.
+        - The concurrency array, which indicates how many labels overlap at each timestamp (at most 32767, see `label_concurrency`).
     :raises ValueError: If timestamps and touch indices are of different lengths.
     """
     if len(event_idxs) != len(touch_idxs):
@@ -28,14 +52,10 @@ def average_uniqueness(
     n = len(timestamps)
     n_events = len(event_idxs)
 
-    concurrency = np.zeros(n, dtype=np.int16)
     weights = np.zeros(n_events, dtype=np.float64)
 
     # 1.) Calculate the concurrency for each timestamp
-    for i in range(n_events):
-        start_idx = event_idxs[i]
-        end_idx = touch_idxs[i]
-        concurrency[start_idx:end_idx+1] += 1  # return overlaps within [t-1, t]
+    concurrency = label_concurrency(n, event_idxs, touch_idxs)
 
     # 2.) Calculate the weight for each label
     for i in prange(n_events):
@@ -46,14 +66,14 @@ def average_uniqueness(
         # The weights are calculated as per the arithmetic mean of the inverse concurrency over the label’s duration.
         weights[i] = np.mean(1.0 / concurrency_slice)
 
-    return weights, concurrency
+    return weights, np.minimum(concurrency, 32767).astype(np.int16)
 
 
 @njit(nogil=True, parallel=True)
 def return_attribution(event_idxs: NDArray[np.int64],
                        touch_idxs: NDArray[np.int64],
                        close: NDArray[np.float64],
-                       concurrency: NDArray[np.int16],
+                       concurrency: NDArray[np.integer],
                        normalize: bool
                        ) -> NDArray[np.float64]:
     """
@@ -63,7 +83,7 @@ def return_attribution(event_idxs: NDArray[np.int64],
     :param event_idxs: Event indices where the label starts.
     :param touch_idxs: Touch indices where the label ends.
     :param close: Close price array.
-    :param concurrency: Concurrency array indicating how many labels overlap at each timestamp. From `label_average_uniqueness` function.
+    :param concurrency: Concurrency array indicating how many labels overlap at each timestamp. From the `label_concurrency` function.
     :param normalize: If True, normalize the returned weights to sum to the number of events.
     :return: NDArray[np.float64]
         An array of return attribution weights for each event.
-- 
2.43.0


From adf86d08c3d813dab78a613e7ef5a868dd1a88da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 59/80] fix: a missing price made every later Bollinger %B
 missing

---
 finmlkit/feature/core/volatility.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index a221bb4..c9179e4 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -330,6 +330,10 @@ def bollinger_percent_b(close: NDArray[np.float64],
         # rolling update
         rolling_sum += close[i] - close[i - window]
         rolling_sum_sq += close[i] ** 2 - close[i - window] ** 2
+        if np.isnan(rolling_sum):
+            # a missing value affects the windows which contain it, not the rest of the series
+            rolling_sum = np.sum(close[i - window + 1:i + 1])
+            rolling_sum_sq = np.sum(close[i - window + 1:i + 1] ** 2)
         mean = rolling_sum / window
         var = (rolling_sum_sq - window * mean ** 2) / (window - 1)
         sd = np.sqrt(max(var, 0.0))
-- 
2.43.0


From ccfbc1b8f41bdf1fd98133373af5d96b477b28ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 60/80] fix: the log VWAP distance gave the simple distance for
 its first window

---
 finmlkit/feature/core/reversion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/reversion.py b/finmlkit/feature/core/reversion.py
index afc990a..c6d1c1e 100644
--- a/finmlkit/feature/core/reversion.py
+++ b/finmlkit/feature/core/reversion.py
@@ -37,7 +37,10 @@ def vwap_distance(close: NDArray[np.float64],
         vsum += volume[k]
 
     if vsum > 0:
-        out[n_periods-1] = close[n_periods-1] / (wsum / vsum) - 1.0
+        if is_log:
+            out[n_periods-1] = np.log(close[n_periods-1] / (wsum / vsum))
+        else:
+            out[n_periods-1] = close[n_periods-1] / (wsum / vsum) - 1.0
 
     # rolling update
     for i in range(n_periods, n):
-- 
2.43.0


From 5824065f12094fb5d6af95342324e06984bc9759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 61/80] fix: a missing price or volume spoiled every later VWAP
 distance

---
 finmlkit/feature/core/reversion.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finmlkit/feature/core/reversion.py b/finmlkit/feature/core/reversion.py
index c6d1c1e..80c7982 100644
--- a/finmlkit/feature/core/reversion.py
+++ b/finmlkit/feature/core/reversion.py
@@ -47,6 +47,10 @@ def vwap_distance(close: NDArray[np.float64],
         left_pv = close[i - n_periods] * volume[i - n_periods]
         wsum += close[i] * volume[i] - left_pv
         vsum += volume[i] - volume[i - n_periods]
+        if np.isnan(wsum) or np.isnan(vsum):
+            # a missing value affects the windows which contain it, not the rest of the series
+            wsum = np.sum(close[i - n_periods + 1:i + 1] * volume[i - n_periods + 1:i + 1])
+            vsum = np.sum(volume[i - n_periods + 1:i + 1])
 
         if vsum > 0:
             if is_log:
-- 
2.43.0


From 2ef26ba589e6c9b52d410d64c8c257a8be4e519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 62/80] fix: a missing volume made every later flow
 acceleration missing

---
 finmlkit/feature/core/volume.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index d8cc010..55f719e 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -600,13 +600,18 @@ def comp_flow_acceleration(
         return out                 # edge cases
 
 
-    # prefix cumsum array
+    # prefix cumsum array (missing volumes are counted, they affect only the windows which contain them)
     S = np.empty(n+1, np.float64)
     S[0] = 0.0
+    missing = np.zeros(n+1, np.int64)
     for i in range(n):
-        S[i+1] = S[i] + volumes[i]
+        is_nan = np.isnan(volumes[i])
+        S[i+1] = S[i] + (0.0 if is_nan else volumes[i])
+        missing[i+1] = missing[i] + is_nan
 
     for i in prange(window - 1, n):
+        if missing[i+1] != missing[i+1 - window]:
+            continue
         recent_sum = S[i+1] - S[i+1 - recent_periods]
         past_sum   = S[i+1 - recent_periods] - S[i+1 - window]
         out[i] = np.log((recent_sum + eps) / (past_sum + eps))
-- 
2.43.0


From cbbc065926a5b8c834e63cca37e0f19a60c0f50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 63/80] fix: a missing bar made every later stochastic
 oscillator value missing

---
 finmlkit/feature/core/momentum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/core/momentum.py b/finmlkit/feature/core/momentum.py
index 962044b..11f3094 100644
--- a/finmlkit/feature/core/momentum.py
+++ b/finmlkit/feature/core/momentum.py
@@ -97,10 +97,10 @@ def stoch_k(
     for t in range(length, n):
         # update window min/max efficiently
         # if the outgoing bar was the min/max we need full recompute;
-        # otherwise only compare the new bar.
+        # otherwise only compare the new bar (missing values affect the windows which contain them).
         out_idx = t - length
 
-        if low[out_idx] == lo or high[out_idx] == hi:
+        if low[out_idx] == lo or high[out_idx] == hi or np.isnan(lo + hi + low[t] + high[t]):
             lo = np.min(low[t - length + 1:t + 1])
             hi = np.max(high[t - length + 1:t + 1])
         else:
-- 
2.43.0


From 695719174de7959ba86cb9ff9090414b61a4859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 64/80] fix: percentage changes filled missing prices forward

---
 finmlkit/feature/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 1f35fe2..e289cd3 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -196,7 +196,7 @@ class PctChange(SISOTransform):
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
         series = x[self.requires[0]]
-        return series.pct_change(self.periods)
+        return series.pct_change(self.periods, fill_method=None)
 
     def _nb(self, x: Union[pd.DataFrame, pd.Series]) -> pd.Series:
         input_arr = self._prepare_input_nb(x)
@@ -780,7 +780,7 @@ class PriceVolumeCorrelation(MISOTransform):
         volume_col = self.requires[1]
 
         # Calculate returns
-        returns = x[price_col].pct_change()
+        returns = x[price_col].pct_change(fill_method=None)
 
         # Create a DataFrame with returns and volume
         df = pd.DataFrame({
-- 
2.43.0


From 9843865f860b87e7e039e5c9ddddba8f63075861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 65/80] fix: casting a footprint to numpy changed its content
 when all bars have equally many price levels

---
 finmlkit/bar/data_model.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index c469886..c9483c8 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -1073,13 +1073,13 @@ class FootprintData:
         """
         Convert internal lists to NumPy arrays for general-purpose processing.
         """
-        self.price_levels = np.array(self.price_levels, dtype=object)
-        self.buy_volumes = np.array(self.buy_volumes, dtype=object)
-        self.sell_volumes = np.array(self.sell_volumes, dtype=object)
-        self.buy_ticks = np.array(self.buy_ticks, dtype=object)
-        self.sell_ticks = np.array(self.sell_ticks, dtype=object)
-        self.buy_imbalances = np.array(self.buy_imbalances, dtype=object)
-        self.sell_imbalances = np.array(self.sell_imbalances, dtype=object)
+        self.price_levels = _object_array(self.price_levels)
+        self.buy_volumes = _object_array(self.buy_volumes)
+        self.sell_volumes = _object_array(self.sell_volumes)
+        self.buy_ticks = _object_array(self.buy_ticks)
+        self.sell_ticks = _object_array(self.sell_ticks)
+        self.buy_imbalances = _object_array(self.buy_imbalances)
+        self.sell_imbalances = _object_array(self.sell_imbalances)
 
     def memory_usage(self):
         """Calculate the approximate memory usage of this object in MB."""
@@ -1127,6 +1127,16 @@ class FootprintData:
 # --------
 # utils
 # --------
+def _object_array(arrays) -> NDArray:
+    """
+    One-dimensional object array of arrays, also where all of them have the same length (np.array would make a matrix of objects of them).
+    """
+    out = np.empty(len(arrays), dtype=object)
+    for i, arr in enumerate(arrays):
+        out[i] = arr
+    return out
+
+
 H5_OVERHEAD_BYTES = 16 * 1024 ** 2  # generous allowance for chunk padding and metadata of one monthly group
 
 
-- 
2.43.0


From 6d7c0b498d34ee0033b5c9ff5d64ff5280f8a8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 66/80] fix: the volume profile of a range lacked the first
 bars and failed on bars that share a timestamp

---
 finmlkit/feature/core/volume.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index 55f719e..74d0c51 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -114,14 +114,15 @@ class VolumePro:
         # Subtract the window size from the start timestamp to eliminate the first window warm-up
         adjusted_start = start - pd.Timedelta(seconds=self.window_size_sec)
 
-        # Use FootprintBT's slicing to get the range
-        fp_data_subset = fp_data[adjusted_start:end]
-
-        # Convert bar_timestamps to DatetimeIndex to match bar index format
-        fp_datetime_index = pd.to_datetime(fp_data_subset.bar_timestamps, unit='ns')
-
-        # Align bar with the footprint data using the datetime index
-        bars_subset = bars.loc[fp_datetime_index]
+        # Bars are irregular: the subset has to begin at or before the adjusted start for the warm-up to be over at `start`
+        first_idx = np.searchsorted(fp_data.bar_timestamps, adjusted_start.value)
+        if first_idx > 0 and (first_idx == len(fp_data) or fp_data.bar_timestamps[first_idx] > adjusted_start.value):
+            first_idx -= 1
+        end_idx = pd.to_datetime(fp_data.bar_timestamps, unit='ns').slice_indexer(end=end).stop
+
+        # Bars and footprint are aligned by position (bars can share a timestamp)
+        fp_data_subset = fp_data[first_idx:end_idx]
+        bars_subset = bars.iloc[first_idx:end_idx]
 
         # Call the compute method for the subset
         poc_prices, hva_prices, lva_prices, vp_pct_above_poc = self.compute(bars_subset, fp_data_subset)
-- 
2.43.0


From a7bfcfe7e5dd2befbb71c4f43a9fb08250f6fd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:54 +0000
Subject: [PATCH 67/80] fix: the daily gap used a later price when the bar at
 midnight is missing

---
 finmlkit/feature/transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index e289cd3..bc8d482 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1096,7 +1096,9 @@ class DailyGap(SISOTransform):
         series = series.sort_index()
 
         # Get close prices at 00:00 UTC (first value of each day)
-        midnight_close = series.resample('D').first()
+        days = series.index.normalize()
+        midnight_close = series[~days.duplicated()]  # also if it is missing: a later value is not known yet at that bar
+        midnight_close.index = days[~days.duplicated()]
 
         # Get close prices at 23:45 UTC from previous day (last value of each day after shifting)
         prev_2345_close = series.resample('D').last().shift(1)
-- 
2.43.0


From 78f66d0b6ddff3aca0349d57e5ff1efd63f72867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:54 +0000
Subject: [PATCH 68/80] fix: a log file path without a directory made the
 import fail

---
 finmlkit/utils/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/utils/log.py b/finmlkit/utils/log.py
index cfc371d..dcab98f 100644
--- a/finmlkit/utils/log.py
+++ b/finmlkit/utils/log.py
@@ -36,7 +36,7 @@ def setup_logging():
 
     # Configure file handler if log directory is specified
     if log_file_path:
-        log_dir = os.path.dirname(log_file_path)
+        log_dir = os.path.dirname(os.path.abspath(log_file_path))
         os.makedirs(log_dir, exist_ok=True)
 
         file_handler = TimedRotatingFileHandler(
-- 
2.43.0


From de5bcdec47f34517f29f7ebdb68f3e44799a24a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:54 +0000
Subject: [PATCH 69/80] fix: concurrent first users could install the log
 handlers twice

---
 finmlkit/utils/log.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/finmlkit/utils/log.py b/finmlkit/utils/log.py
index dcab98f..d872850 100644
--- a/finmlkit/utils/log.py
+++ b/finmlkit/utils/log.py
@@ -1,9 +1,13 @@
 import logging
 import sys
 import os
+import threading
 from logging.handlers import TimedRotatingFileHandler
 from dotenv import load_dotenv
 
+_SETUP_LOCK = threading.Lock()
+
+
 def setup_logging():
     """
     Sets up logging configuration with separate console and file handlers.
@@ -68,5 +72,6 @@ def get_logger(name: str):
     """
     Returns a logger for the given module name, ensuring logging is configured.
     """
-    setup_logging()
+    with _SETUP_LOCK:  # two threads must not both install the handlers
+        setup_logging()
     return logging.getLogger(name)
-- 
2.43.0


From c6428f7adc9e8df9c8ebaa299030c4aa99a43177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:54 +0000
Subject: [PATCH 70/80] fix: a failed labelling left features and labels of
 different runs

---
 finmlkit/label/kit.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/finmlkit/label/kit.py b/finmlkit/label/kit.py
index d6d8408..41f87b9 100644
--- a/finmlkit/label/kit.py
+++ b/finmlkit/label/kit.py
@@ -292,32 +292,35 @@ class TBMLabel:
         """
         if not isinstance(trades, TradesData):
             raise ValueError("Trades must be an instance of TradesData.")
-        self._features = self._drop_trailing_events(trades)
+        features = self._drop_trailing_events(trades)
 
-        event_idx = self._event_idx(self._features, trades.data.timestamp.values)
+        event_idx = self._event_idx(features, trades.data.timestamp.values)
 
         # Call the triple_barrier function
         labels, touch_idx, rets, max_rb_ratios = triple_barrier(
             timestamps=trades.data.timestamp.values,
             close=trades.data.price.values,
             event_idxs=event_idx,
-            targets=self.target_returns.values,
+            targets=features[self.target_ret_col].values,
             horizontal_barriers=self.horizontal_barriers,
             vertical_barrier=self.vertical_barrier,
             min_close_time_sec=self.min_close_time_sec,
-            side=self.features['side'].values.astype(np.int8) if self.is_meta else None,
+            side=features['side'].values.astype(np.int8) if self.is_meta else None,
             min_ret=self.min_ret
         )
 
         # Construct the output DataFrame
-        self._out = pd.DataFrame({
+        out = pd.DataFrame({
             'touch_time': pd.to_datetime(trades.data.timestamp.values[touch_idx]),
             'event_idx': event_idx,
             'touch_idx': touch_idx,
             'labels': labels,
             'returns': rets,
             'vertical_touch_weights': max_rb_ratios
-        }, index=self.features.index)
+        }, index=features.index)
+
+        # Replace both together, so that they belong to the same trades even if the computation above fails
+        self._features, self._out = features, out
 
         return self.features, self.full_output
 
-- 
2.43.0


From 48a10279d2c82ae677c93255f5ee8ef1a40a95ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:54 +0000
Subject: [PATCH 71/80] fix: cumulative extremes of bars were wrong beyond 1e9

---
 finmlkit/bar/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index 01f4e3c..211e878 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -519,6 +519,12 @@ def comp_bar_directional_features(
             else:
                 continue
 
+            # The first cumulative values are the extremes so far, however large they are
+            if current_tics_buy + current_tics_sell == 1:
+                cum_ticks_max[i] = cum_ticks_min[i] = current_cum_ticks
+                cum_volumes_max[i] = cum_volumes_min[i] = current_cum_volumes
+                cum_dollars_max[i] = cum_dollars_min[i] = current_cum_dollars
+
             # Update the cumulative min and max values
             cum_ticks_max[i] = max(cum_ticks_max[i], current_cum_ticks)
             cum_ticks_min[i] = min(cum_ticks_min[i], current_cum_ticks)
-- 
2.43.0


From 12f6e512f8be77ec6936c3839e03a3c2f7183047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:54 +0000
Subject: [PATCH 72/80] fix: Bollinger %B of quiet windows was rounding noise
 of earlier prices

---
 finmlkit/feature/core/volatility.py | 37 ++++++++++-------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index c9179e4..2b2afe0 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -312,34 +312,21 @@ def bollinger_percent_b(close: NDArray[np.float64],
     if n < window:
         return out
 
-    # initialize rolling sum variables
-    rolling_sum = 0.0
-    rolling_sum_sq = 0.0
-    for k in range(window):
-        rolling_sum += close[k]
-        rolling_sum_sq += close[k] ** 2
-
-    mean = rolling_sum / window
-    var = (rolling_sum_sq - window * mean * mean) / (window - 1)
-    sd = np.sqrt(max(var, 0.0))
-    lower = mean - num_std * sd
-    upper = mean + num_std * sd
-    out[window - 1] = (close[window - 1] - lower) / (upper - lower) if upper > lower else np.nan
-
-    for i in range(window, n):
-        # rolling update
-        rolling_sum += close[i] - close[i - window]
-        rolling_sum_sq += close[i] ** 2 - close[i - window] ** 2
-        if np.isnan(rolling_sum):
-            # a missing value affects the windows which contain it, not the rest of the series
-            rolling_sum = np.sum(close[i - window + 1:i + 1])
-            rolling_sum_sq = np.sum(close[i - window + 1:i + 1] ** 2)
-        mean = rolling_sum / window
-        var = (rolling_sum_sq - window * mean ** 2) / (window - 1)
+    for i in range(window - 1, n):
+        # deviations from the current price, summed for every window: running sums of squares would accumulate rounding errors,
+        # which are larger than the variance of a quiet window
+        total = 0.0
+        total_sq = 0.0
+        for k in range(i - window + 1, i + 1):
+            dev = close[k] - close[i]
+            total += dev
+            total_sq += dev ** 2
+        mean = total / window  # relative to the current price
+        var = (total_sq - window * mean ** 2) / (window - 1)
         sd = np.sqrt(max(var, 0.0))
         lower = mean - num_std * sd
         upper = mean + num_std * sd
-        out[i] = (close[i] - lower) / (upper - lower) if upper > lower else np.nan
+        out[i] = -lower / (upper - lower) if upper > lower else np.nan
 
     return out
 
-- 
2.43.0


From 0054d38ba143d4962b06a8b904830578e04d3506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:58 +0000
Subject: [PATCH 73/80] fix: a lower barrier disabled with -inf was hit by the
 first trade

---
 finmlkit/label/tbm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index cea390d..3053226 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -87,6 +87,11 @@ def triple_barrier(
         # Upper and lower barriers in log-return space
         upper_barrier = tgt * top_mult
         lower_barrier = -tgt * bottom_mult
+        # An infinite multiplier disables the barrier, whatever its sign
+        if np.isinf(upper_barrier):
+            upper_barrier = np.inf
+        if np.isinf(lower_barrier):
+            lower_barrier = -np.inf
         # Pre-compute barrier conditions outside the loop
         upper_valid = np.isfinite(upper_barrier) and upper_barrier != 0.0
         lower_valid = np.isfinite(lower_barrier) and lower_barrier != 0.0
-- 
2.43.0


From b0b41db19f350d10941611b0c7f9ab7c02f22bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:58 +0000
Subject: [PATCH 74/80] fix: saving an empty window removed the month stored
 before

---
 finmlkit/bar/data_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index c9483c8..ecdcbbe 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -453,6 +453,10 @@ class TradesData:
         :returns: Full HDF5 key path used for storage (e.g., "/trades/2021-03").
         :raises ValueError: If user declines to overwrite existing data or if data format is invalid.
         """
+        if self.data.empty:
+            # Nothing may be removed from the store for it
+            raise ValueError("There are no trades to save (in the view range).")
+
         # ------------------------------------------------------------------
         #  Derive the monthly key and ensure output path exists
         # ------------------------------------------------------------------
-- 
2.43.0


From b1e4849188a9bd82fd9bdd65846c929329999b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:43 +0000
Subject: [PATCH 75/80] fix: features handing the same column through blocked
 each other in the topological order

---
 finmlkit/feature/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index 75752c8..1de08b8 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -431,7 +431,9 @@ def build_feature_graph(features: List["Feature"]) -> ComputationGraph:
     for f in features:
         cols = f.transform.output_name
         for col in ([cols] if isinstance(cols, str) else list(cols)):
-            producers.setdefault(col, []).append(str(f.name))
+            # (a transform that hands an input column through leaves the column as it was)
+            if col not in _flatten_requires(f.transform):
+                producers.setdefault(col, []).append(str(f.name))
 
     def _child_out_names(t: BaseTransform) -> List[str]:
         if isinstance(t, (BinaryOpTransform, MinMaxOpTransform)):
-- 
2.43.0


From c409af1c8aebbd51770ecc961c4d5306f412113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:51 +0000
Subject: [PATCH 76/80] fix: a missing value made every later value of the EWMA
 missing

---
 finmlkit/feature/core/ma.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/finmlkit/feature/core/ma.py b/finmlkit/feature/core/ma.py
index 68462be..8b56e7e 100644
--- a/finmlkit/feature/core/ma.py
+++ b/finmlkit/feature/core/ma.py
@@ -28,20 +28,21 @@ def ewma(y: NDArray, span: int) -> NDArray[np.float64]:
     if span < 1:
         raise ValueError("span size is less than or equal to 1. Please provide a span size greater than 1.")
 
-    if n == 0:
-        return ewma
-
     alpha = 2.0 / (span + 1.0)
-    u_t = y[0]  # Initial value for numerator
-    v_t = 1.0   # Initial value for denominator
-    ewma[0] = u_t / v_t
-
-    for t in range(1, n):
-        # Update the numerator and denominator
-        u_t = y[t] + (1.0 - alpha) * u_t
-        v_t = 1.0 + (1.0 - alpha) * v_t
+    u_t = 0.0  # Initial value for numerator
+    v_t = 0.0  # Initial value for denominator
+    last = np.nan
+
+    for t in range(n):
+        # Update the numerator and denominator: a missing value has no weight (as in pandas)
+        u_t = (1.0 - alpha) * u_t
+        v_t = (1.0 - alpha) * v_t
+        if not np.isnan(y[t]):
+            u_t += y[t]
+            v_t += 1.0
+            last = u_t / v_t
         # Calculate the EWMA
-        ewma[t] = u_t / v_t
+        ewma[t] = last
 
     return ewma
 
-- 
2.43.0


From ca8894157c72f200e15280020d0c95574b69f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:51 +0000
Subject: [PATCH 77/80] fix: a missing return counted as an observation of zero
 in the time-decayed EWMS

---
 finmlkit/feature/core/volatility.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index 2b2afe0..b7810b8 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -184,16 +184,16 @@ def ewmst(
 
         yi = y[i]
 
-        # update weight sums
-        V  = alpha       + one_minus * V
-        V2 = alpha*alpha + (one_minus*one_minus) * V2
-
-        # update EWMA sums
+        # update weight sums and EWMA sums
         if np.isnan(yi):
             # decay only
+            V   = one_minus * V
+            V2  = (one_minus*one_minus) * V2
             Sy  = one_minus * Sy
             Syy = one_minus * Syy
         else:
+            V   = alpha       + one_minus * V
+            V2  = alpha*alpha + (one_minus*one_minus) * V2
             Sy  = alpha * yi        + one_minus * Sy
             Syy = alpha * yi * yi   + one_minus * Syy
 
-- 
2.43.0


From 225781e4611f3ef4fb885e7b79a5772a40e2a82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:51 +0000
Subject: [PATCH 78/80] fix: EWMS of a single observation followed by missing
 ones was rounding noise

---
 finmlkit/feature/core/volatility.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index b7810b8..6e02d29 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -57,7 +57,8 @@ def ewms(y: NDArray[np.float64], span: int) -> NDArray[np.float64]:
         if S_w > 0.0:
             mean = S_y / S_w
             denominator = S_w - (S_w2 / S_w)
-            if denominator > 0.0:
+            # (a single observation has no spread: what is left of the differences is rounding)
+            if denominator > 1e-12 * S_w:
                 variance = (S_y2 / S_w - mean ** 2) * S_w / denominator
                 variance = max(variance, 0.0)  # Ensure non-negative variance
                 ewm_std[t] = np.sqrt(variance)
@@ -204,7 +205,8 @@ def ewmst(
             var_raw= ewma_y2 - mean*mean
             # bias correction
             denom = V - (V2 / V) if V > 0.0 else 0.0
-            if denom > 0.0 and var_raw > 0.0:
+            # (a single observation has no spread: what is left of the differences is rounding)
+            if denom > 1e-12 * V and var_raw > 0.0:
                 var = var_raw * (V / denom)
             else:
                 var = 0.0
-- 
2.43.0


From 7b2a76173f9d9ba2b9044152ce23a40a0ac5526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:51 +0000
Subject: [PATCH 79/80] fix: directional run lengths beyond 127 bars overflowed

---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index bc8d482..da5d05b 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1649,7 +1649,7 @@ class DirRunLen(SISOTransform):
         :return: Array containing directional run lengths
         """
         n = len(x)
-        run_lengths = np.zeros(n, dtype=np.int8)
+        run_lengths = np.zeros(n, dtype=np.int32)  # (int8 overflows after 127 bars)
 
         if n < 2:
             return run_lengths
-- 
2.43.0


From cd2f22d30f0aac212386f89884adc398f48c2ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:51 +0000
Subject: [PATCH 80/80] fix: CUSUM event ages above 255 bars wrapped

---
 finmlkit/feature/transforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index da5d05b..eb6e8f1 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -694,11 +694,12 @@ class CUSUMTest(SIMOTransform):
 
         # Calculate age features (bars since last break)
         # For each flag=1, we start a new group, then count within that group
+        age_dtype = np.uint8 if self.max_age <= 255 else np.int64
         age_up = flag_up_series.groupby((flag_up_series == 1).cumsum()).cumcount()
-        age_up = age_up.clip(0, self.max_age).astype(np.uint8).values
+        age_up = age_up.clip(0, self.max_age).astype(age_dtype).values
 
         age_down = flag_down_series.groupby((flag_down_series == 1).cumsum()).cumcount()
-        age_down = age_down.clip(0, self.max_age).astype(np.uint8).values
+        age_down = age_down.clip(0, self.max_age).astype(age_dtype).values
 
         # Return all features
         return self._prepare_output_nb(
-- 
2.43.0

