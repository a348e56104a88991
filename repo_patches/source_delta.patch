From 5076c7a4a3594b4eda42bf608d9f622fbc5e2cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 01/71] fix: reject bad points before opening an update

Points.append_list, replace and set raised after begin_update() (and after
changing the spacing flag), which left the curve updating forever.
---
 curvepy/points.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index f51ad21..8ccccec 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -76,10 +76,11 @@ class Points(Curve):
             domain = Interval.closed(points[0][0], points[-1][0])
         else:
             domain = Interval(self.domain.end, points[-1][0], start_open=True, end_open=False)
-        self.begin_update(domain)
-        self._is_equally_spaced = self._points_equally_spaced(self._points, points)
-        if self._force_equally_spaced and not self._is_equally_spaced:
+        is_equally_spaced = self._points_equally_spaced(self._points, points)
+        if self._force_equally_spaced and not is_equally_spaced:
             raise Exception('Attempting to append points at non-regular intervals: {}{} + {}{}'.format('...' if len(self._points) > 2 else '', self._points[len(self._points) - 2:], points[:2], '...' if len(points) > 2 else ''))
+        self.begin_update(domain)
+        self._is_equally_spaced = is_equally_spaced
         self._points += points
         self._did_change_points()
         self.end_update(domain)
@@ -91,17 +92,17 @@ class Points(Curve):
             else:
                 raise Exception('Attempting to replace point outside of bounds')
 
+        nearest_i = int(math.ceil(self.x_index(point[0])))
+        nearest_p = self._points[nearest_i]
+        if point[0] != nearest_p[0] and self._force_equally_spaced:
+            raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
+
         update_domain = Interval.point(point[0])
         self.begin_update(update_domain)
 
-        nearest_i = int(math.ceil(self.x_index(point[0])))
-        nearest_p = self._points[nearest_i]
         if point[0] != nearest_p[0]:
-            if self._force_equally_spaced:
-                raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
-            else:
-                self._points.insert(nearest_i, point)
-                self._is_equally_spaced = False
+            self._points.insert(nearest_i, point)
+            self._is_equally_spaced = False
         else:
             self._points[nearest_i] = point
 
@@ -166,10 +167,11 @@ class Points(Curve):
                 update_domain = self.domain
             else:
                 update_domain = Interval.union([self.domain, Interval.closed(points[0][0], points[-1][0])])
-        self.begin_update(update_domain)
-        self._is_equally_spaced = self._points_equally_spaced([], points)
-        if self._force_equally_spaced and not self._is_equally_spaced:
+        is_equally_spaced = self._points_equally_spaced([], points)
+        if self._force_equally_spaced and not is_equally_spaced:
             raise Exception('Attempting to set points at non-regular intervals')
+        self.begin_update(update_domain)
+        self._is_equally_spaced = is_equally_spaced
         self._points = list(points)
         self._did_change_points()
         self.end_update(update_domain)
-- 
2.43.0


From 2f17244afa5ddb4333bc39820d648356c5c2423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 02/71] fix: validate a sin description before opening an
 update

---
 curvepy/sin.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/curvepy/sin.py b/curvepy/sin.py
index 9af1e9a..9d23cd8 100644
--- a/curvepy/sin.py
+++ b/curvepy/sin.py
@@ -20,20 +20,21 @@ class Sin(Curve):
         self.set(amplitude=amplitude, frequency=frequency, period=period, phase=phase, phase_x=phase_x)
     
     def set(self, amplitude=None, frequency=None, period=None, phase=0, phase_x=None):
-        self.begin_update(self.domain)
-        self.amplitude = amplitude
-        self.phase = phase
-
-        self.x_coef = None
+        x_coef = None
         if period is not None:
             frequency = 1.0 / period
         if frequency is not None:
-            self.x_coef = frequency * math.pi * 2.0
-        if phase_x is not None:
-            self.phase = phase_x * self.x_coef
+            x_coef = frequency * math.pi * 2.0
+        if phase_x is not None and x_coef is not None:
+            phase = phase_x * x_coef
 
-        if self.amplitude is None or self.x_coef is None or self.phase is None:
+        if amplitude is None or x_coef is None or phase is None:
             raise Exception("Invalid sin function description")
+
+        self.begin_update(self.domain)
+        self.amplitude = amplitude
+        self.phase = phase
+        self.x_coef = x_coef
         self.end_update(self.domain)
 
     def y(self, x):
-- 
2.43.0


From 1bd82fbd1f6464cc144b725a7a944d1ab60b1066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 03/71] fix: deliver updates when a callback removes an
 observer

begin_update() iterated over the live token list, skipping observers when one
was removed by a callback, and end_update() raised a KeyError.
---
 curvepy/curve.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 3bc1a4a..709bb33 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -434,7 +434,10 @@ class Curve:
         if domain.is_empty or self._begin_update_interval.is_superset_of(domain):
             return
         self._begin_update_interval = Interval.union([self._begin_update_interval, domain])
-        for token in self._ordered_observer_tokens:
+        for token in list(self._ordered_observer_tokens):
+            if token not in self._observer_data:
+                # Removed by a previous callback
+                continue
             _, callback_interval, callback, _, callback_with_interval, _ = self._observer_data[token]
             if callback_interval is None or domain.intersects(callback_interval):
                 if callback is not None:
@@ -457,6 +460,9 @@ class Curve:
         self._end_update_interval = Interval.empty()
         self.set_needs_interval_update()
         for token in list(self._ordered_observer_tokens):
+            if token not in self._observer_data:
+                # Removed by a previous callback
+                continue
             _, callback_interval, _, callback, _, callback_with_interval = self._observer_data[token]
             if callback_interval is None or update_interval.intersects(callback_interval):
                 if callback is not None:
-- 
2.43.0


From 339cfa38044dc86577e40e52f892181ef55ef7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 04/71] fix: encode an appended quote once

---
 curvepy/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index 77bf383..2dc5fb3 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -183,7 +183,7 @@ class Quotes(Curve):
         or in a suitable form for `encoder`, in strict ascending order with no gaps
         and with the same duration as the receiver.
         """
-        self.append_list([self.encode_one(quote_point)])
+        self.append_list([quote_point])
 
     def append_list(self, quote_points):
         """
-- 
2.43.0


From 79c4a8d9442500087fe1d9396d4de25b34295bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 05/71] fix: read the documented quote form in Quotes.get_range

---
 curvepy/quotes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index 2dc5fb3..033ef39 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -139,10 +139,10 @@ class Quotes(Curve):
         low = None
         high = None
         for q in quotes:
-            if low is None or q.low < low:
-                low = q.low
-            if high is None or q.high > high:
-                high = q.high
+            if low is None or q[LOW] < low:
+                low = q[LOW]
+            if high is None or q[HIGH] > high:
+                high = q[HIGH]
         if low is None or high is None:
             return Interval.empty()
         return Interval(low, high)
-- 
2.43.0


From c450966d0cf059da7a80b5a58e64ed549b28353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 06/71] fix: trailing_low is the trailing minimum of the lows

---
 curvepy/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index 033ef39..1649901 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -175,7 +175,7 @@ class Quotes(Curve):
         return self.high.trailing_max(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
 
     def trailing_low(self, degree, is_period=False):
-        return self.low.trailing_max(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
+        return self.low.trailing_min(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
 
     def append(self, quote_point):
         """
-- 
2.43.0


From 0c5a83f8d32838a4ee0cb631a0e2eb020c0811b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 07/71] fix: refresh an EMA when its init function updates

---
 curvepy/ema.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/curvepy/ema.py b/curvepy/ema.py
index 1a6479c..1f31d28 100644
--- a/curvepy/ema.py
+++ b/curvepy/ema.py
@@ -19,6 +19,15 @@ class EMA(Accumulator):
         else:
             self.alpha = degree
         super().__init__(func, self._ema_scan, min_step=min_step, uniform=uniform)
+        self._init_observer_token = None
+        if self.init_func is not None:
+            self._init_observer_token = self.init_func.add_observer(
+                begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
+
+    def __del__(self):
+        super().__del__()
+        if self.init_func is not None:
+            self.init_func.remove_observer(self._init_observer_token)
 
     def __repr__(self):
         try:
-- 
2.43.0


From aaa95225d4407d038e2318da558373286cb56d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 08/71] fix: keep extremas in step with both of their functions

An update to the reference function did not restart the scan, an extrema was
confirmed twice when the scan resumed from it, and a restarted scan kept
the extremas of the previous one.
---
 curvepy/extremas.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index 7a4fd89..b3feedd 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -17,7 +17,8 @@ class Extremas(Scan):
         self.possible_extrema_phase = None
         self._did_update_extremas()
         super().__init__(func, self._extrema_scan, min_step=min_step)
-        self._ref_observer_token = self.ref_func.add_observer(begin=self.begin_update, end=self.end_update)
+        self._ref_observer_token = self.ref_func.add_observer(
+            begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
 
     def __del__(self):
         self.ref_func.remove_observer(self._ref_observer_token)
@@ -42,6 +43,12 @@ class Extremas(Scan):
             return False
         return not self.extrema_interval.contains(x, enforce_start=False)
 
+    def reset_scan(self):
+        super().reset_scan()
+        self.extremas = []
+        self.extrema_xs = []
+        self._did_update_extremas()
+
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
         if self.extrema_interval.contains(x - min_step):
@@ -72,12 +79,14 @@ class Extremas(Scan):
             elif domain.start > x:
                 break
 
-        # scan from last extrema
+        # scan from last extrema, which will be confirmed again
         extrema_count = len(self.extremas)
         if extrema_count == 0:
             self.current = None
+            self._did_update_extremas()
         else:
             last_extrema = self.extremas[-1]
+            self._remove_extrema_index(extrema_count - 1)
             x = last_extrema[0]
             self.current = x
             self.possible_extrema = last_extrema
-- 
2.43.0


From f4e6da0e125780917c93a2f34dcfac18120000a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 09/71] fix: compare extremas with a zero reference without
 dividing by it

---
 curvepy/extremas.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index b3feedd..82c7cd2 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -102,8 +102,7 @@ class Extremas(Scan):
         y0 = self.ref_func(x)
         if y0 is None:
             return
-        div = y / y0 - 1
-        if abs(div) <= self.min_deviation:
+        if abs(y - y0) <= self.min_deviation * abs(y0):
             # function is too close to reference function
             return
         phase = y - y0
-- 
2.43.0


From 8d79c4a9d7af8bb5180a4fd1227d5129fb9920b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 10/71] fix: keep a generic curve's domain over updates and
 follow a wrapped curve

---
 curvepy/generic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curvepy/generic.py b/curvepy/generic.py
index 6d85f5f..1c041c8 100644
--- a/curvepy/generic.py
+++ b/curvepy/generic.py
@@ -4,12 +4,14 @@ from intervalpy import Interval
 class Generic(Curve):
 
     def get_domain(self):
-        return self._domain
+        return self._func_domain
 
     def __init__(self, y_func, domain=None, min_step=MIN_STEP):
         super().__init__(min_step=min_step)
         self.y_func = y_func
-        self._domain = Interval.parse(domain) if domain is not None else Interval.infinite()
+        self._func_domain = Interval.parse(domain) if domain is not None else Interval.infinite()
+        if isinstance(y_func, Curve):
+            y_func.add_observer(begin=self.begin_update, end=self.end_update, prioritize=True)
 
     def y(self, x):
         if not self.domain.contains(x):
-- 
2.43.0


From e4a48fec16bd40c15bb4d8631195e3ac77753c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 11/71] fix: return the step found by Piecewise.x_next and
 x_previous

The position found was dropped, and x_next() checked the start of the domain
instead of its end.
---
 curvepy/piecewise.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/curvepy/piecewise.py b/curvepy/piecewise.py
index e43c5e9..6801d63 100644
--- a/curvepy/piecewise.py
+++ b/curvepy/piecewise.py
@@ -47,11 +47,12 @@ class Piecewise(Curve):
         x1 = z[0] if z is not None else None
         if x1 is None and self.domains[0].contains(x):
             return self.domains[0].start
+        return x1
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         # FIXME: infinite funcs don't work (unit tests disabled)
         min_step = self.resolve_min_step(min_step)
-        if not self.domain.contains(x + min_step, enforce_end=False):
+        if not self.domain.contains(x + min_step, enforce_start=False):
             return None
         x_map = map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs)
         x_map_d = zip(x_map, self.domains)
@@ -62,3 +63,4 @@ class Piecewise(Curve):
         x1 = z[0] if z is not None else None
         if x1 is None and self.domains[-1].contains(x):
             return self.domains[-1].end
+        return x1
-- 
2.43.0


From e30ad4fd03b7372352625ff996806249149abb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 12/71] fix: sample only points inside the sampled domain, once
 each

The end of an end-open domain was sampled, and a single point domain
was sampled twice.
---
 curvepy/curve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 709bb33..bd9955d 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -183,13 +183,13 @@ class Curve:
             points = [(x_start, self.y(x_start))]
         if step is not None:
             x = x_start + step
-            while x <= x_end:
+            while domain.contains(x):
                 y = self.y(x)
                 points.append((x, y))
                 x += step
         elif min_step is not None and min_step > 0:
             x = self.x_next(x_start, min_step=min_step, limit=x_end)
-            while x is not None and x <= x_end:
+            while x is not None and x > x_start and domain.contains(x):
                 y = self.y(x)
                 points.append((x, y))
                 x_bin = round(x / min_step) if min_step is not None else x
@@ -202,7 +202,7 @@ class Curve:
                         raise Exception('Next x value {} should be greater than the previous x value {} by at least the minimum step of {}'.format(x1, x, min_step))
                 x = x1
 
-            if not domain.end_open and points[-1][0] != x_end:
+            if not domain.end_open and (len(points) == 0 or points[-1][0] != x_end):
                 points.append((x_end, self.y(x_end)))
         else:
             raise Exception("Bad functions sample parameters.")
-- 
2.43.0


From 4f3c9ab1fce0ebb19b9c758c65bcda2492de25da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 13/71] fix: include the first point in sample_points_from_x

It was counted against the limit but left out, and the default min_step of
None could not be used by x_next().
---
 curvepy/curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index bd9955d..7f8462c 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -209,7 +209,7 @@ class Curve:
 
         return points
 
-    def sample_points_from_x(self, x, limit, backward=False, open=False, min_step=None):
+    def sample_points_from_x(self, x, limit, backward=False, open=False, min_step=MIN_STEP):
         assert limit is not None
         if limit < 0:
             limit = -limit
@@ -225,6 +225,7 @@ class Curve:
             y = self.y(x)
             if y is None:
                 return points
+            points.append((x, y))
             i += 1
 
         while limit is None or i < limit:
-- 
2.43.0


From 933b779d9374d43335d2532b1f21dd7f441d5092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 14/71] fix: x() of a horizontal line

---
 curvepy/line.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/line.py b/curvepy/line.py
index e576585..73a1903 100644
--- a/curvepy/line.py
+++ b/curvepy/line.py
@@ -70,6 +70,10 @@ class Line(Curve):
         return self.slope
 
     def x(self, y):
+        if self.slope == 0:
+            if y == self.ref_point[1]:
+                return self.ref_point[0]
+            return None
         return self.ref_point[0] + (y - self.ref_point[1]) / self.slope
 
     def partial_integration(self, a, b):
-- 
2.43.0


From cc83ea020043e988fc1e5f728111492fff6c0636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:35 +0000
Subject: [PATCH 15/71] fix: pass min_point_distance on to the lines of a trend

---
 curvepy/trend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 3128a5b..479a52b 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -222,6 +222,7 @@ class Trend(Scan):
         return TrendLine(self.min_width,
             is_upper_trend=is_upper_trend,
             min_points=self.min_points, 
+            min_point_distance=self.min_point_distance, 
             search_length_rel=self.search_length_rel, 
             search_length_int_rel=self.search_length_int_rel, 
             x_tol_rel=self.x_tol_rel, 
-- 
2.43.0


From 157703a92875a95069caea011b5f4e1038edcbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 16/71] fix: copy the whole state of a trend line

---
 curvepy/trend.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 479a52b..41d68b3 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -336,6 +336,8 @@ class TrendLine(Sequence):
         self.tangent_points = []
 
         self._line = None
+        self._tolerance_line_upper = None
+        self._tolerance_line_lower = None
         self.search_interval = Interval.empty()
         self.reset_points_of_interest()
         self.reset_prediction()
@@ -363,12 +365,16 @@ class TrendLine(Sequence):
             x_tol_abs=self.x_tol_abs, 
             y_tol_rel=self.y_tol_rel, 
             y_tol_abs=self.y_tol_abs)
+        # Keep the whole state, but share no list with the original
+        line.__dict__.update(self.__dict__)
         line.trend_points = list(self.trend_points)
         line._boundary_points = list(self._boundary_points)
-        line._line = tuple(self._line)
+        if self._line is not None:
+            line._line = tuple(self._line)
         line.search_interval = self.search_interval.copy()
         line.intersections = list(self.intersections)
         line.tangent_points = list(self.tangent_points)
+        line.extremas = list(self.extremas)
         return line
 
     def copy(self):
-- 
2.43.0


From 28fc5c280affeb758fa2435bc94746b915792298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 17/71] fix: name attributes that exist in an error message and
 a description

---
 curvepy/aggregate.py | 2 +-
 curvepy/integral.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 74ecb87..a6796aa 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -33,7 +33,7 @@ class Aggregate(Curve):
     def __repr__(self):
         try:
             params = ", ".join(list(map(str, self.funcs)))
-            return f'{self.name or self.operator or self.util.__name__}({params})'
+            return f'{self.name or self.operator or self.tfm.__name__}({params})'
             # if self.operator is not None:
             #     def child_str(f):
             #         if isinstance(f, Aggregate):
diff --git a/curvepy/integral.py b/curvepy/integral.py
index ec70f1c..dedf7aa 100644
--- a/curvepy/integral.py
+++ b/curvepy/integral.py
@@ -43,7 +43,7 @@ class Integral(Accumulator):
                 p1 = (x0, y)
                 p2 = (x, y)
             else:
-                raise Exception(f'Unsupported interpolation: {self.interpolation}')
+                raise Exception(f'Unsupported interpolation: {self.integral_interpolation}')
             self._line.set(p1=p1, p2=p2)
             area = self._line.partial_integration(x0, x)
             integral_sum += area
-- 
2.43.0


From 112870ccb3f38a20e717bf9686ad95512363e0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 18/71] fix: blend of a missing value is missing

---
 curvepy/curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 7f8462c..2a570f8 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -540,6 +540,8 @@ class Curve:
         
         x_blend_period = x_blend_stop - x_blend_start
         def blend_f(x, ys):
+            if ys[0] is None or ys[1] is None:
+                return None
             u = (x - x_blend_start) / x_blend_period
             return (1.0 - u) * ys[0] + u * ys[1]
         c = Aggregate([self, func], tfm=blend_f, name='blend')
-- 
2.43.0


From c824f015906b25c78aedb2ad3e782846ed016dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:08 +0000
Subject: [PATCH 19/71] fix: ignore missing values in get_range

---
 curvepy/curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 2a570f8..d30e5e1 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -248,6 +248,8 @@ class Curve:
         low = None
         high = None
         for p in points:
+            if p[1] is None:
+                continue
             if low is None or p[1] < low:
                 low = p[1]
             if high is None or p[1] > high:
-- 
2.43.0


From c24b743567eccc41b71001cb541c84e2afa4ccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 20/71] fix: ignore missing values in trailing_min and
 trailing_max

---
 curvepy/curve.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index d30e5e1..977e9e8 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -661,7 +661,7 @@ class Curve:
 
     def trailing_min(self, degree, is_period=False, interpolation=None, min_step=MIN_STEP, uniform=True):
         return self.accumulator_map(
-            min,
+            _min_value,
             degree,
             is_period=is_period,
             interpolation=interpolation,
@@ -671,7 +671,7 @@ class Curve:
 
     def trailing_max(self, degree, is_period=False, interpolation=None, min_step=MIN_STEP, uniform=True):
         return self.accumulator_map(
-            max,
+            _max_value,
             degree,
             is_period=is_period,
             interpolation=interpolation,
@@ -1137,6 +1137,12 @@ def _abs(x, y):
         return None
     return abs(y)
 
+def _min_value(ys):
+    return min(filter(lambda y: y is not None, ys), default=None)
+
+def _max_value(ys):
+    return max(filter(lambda y: y is not None, ys), default=None)
+
 def _callable_arg_len(f, vararg_ret_val):
     args, varargs, _, _ = inspect.getargspec(f)
     if varargs is not None:
-- 
2.43.0


From 733829f23fa101ac51338c4209e8169d7103f9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 21/71] fix: stop minimise and maximise where the curve is
 level

A zero derivative was not taken for an extremum, so the search left a minimum
uphill and ended where its iterations ran out.
---
 curvepy/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 977e9e8..b324972 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -285,7 +285,7 @@ class Curve:
                     # Sloping into null value
                     return None
             else:
-                if dy0 * dy1 < 0 and dy0 <= 0 and dy1 >= 0:
+                if dy0 <= 0 and dy1 >= 0:
                     # Found minimum
                     return x_min
 
@@ -336,7 +336,7 @@ class Curve:
                     # Sloping into null value
                     return None
             else:
-                if dy0 * dy1 < 0 and dy0 >= 0 and dy1 <= 0:
+                if dy0 >= 0 and dy1 <= 0:
                     # Found maximum
                     return x_max
 
-- 
2.43.0


From 77536c6bdf7d553b255cde71b592635ede20234a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 22/71] fix: accept an accumulated position of zero

---
 curvepy/accumulator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/curvepy/accumulator.py b/curvepy/accumulator.py
index 8b711e6..e76eb7e 100644
--- a/curvepy/accumulator.py
+++ b/curvepy/accumulator.py
@@ -27,11 +27,17 @@ class Accumulator(Scan):
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
-        return self.accumulated_points.x_previous(x, min_step=min_step, limit=limit) or self.curve.x_previous(x, min_step=min_step, limit=limit)
+        x1 = self.accumulated_points.x_previous(x, min_step=min_step, limit=limit)
+        if x1 is None:
+            x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
+        return x1
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
-        return self.accumulated_points.x_next(x, min_step=min_step, limit=limit) or self.curve.x_next(x, min_step=min_step, limit=limit)
+        x1 = self.accumulated_points.x_next(x, min_step=min_step, limit=limit)
+        if x1 is None:
+            x1 = self.curve.x_next(x, min_step=min_step, limit=limit)
+        return x1
 
     def begin_update(self, domain):
         self.accumulated_points.reset(domain)
-- 
2.43.0


From 44d3e88cc7ddd58296dec0737cf9b39e4facfd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 23/71] fix: extend an empty function at one end

---
 curvepy/extension/constant.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curvepy/extension/constant.py b/curvepy/extension/constant.py
index 73dbf24..9f78654 100644
--- a/curvepy/extension/constant.py
+++ b/curvepy/extension/constant.py
@@ -12,8 +12,10 @@ class ConstantExtension(Extension):
 
     def update_extension(self):
         if self.curve.domain.is_empty:
-            self.start_func.value = None
-            self.end_func.value = None
+            if self.start:
+                self.start_func.value = None
+            if self.end:
+                self.end_func.value = None
             return
 
         if self.start:
-- 
2.43.0


From d91ce678387d557295de7622fabbf35bb794dbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 24/71] fix: parse the function of a map before reading its
 minimum step

---
 curvepy/map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curvepy/map.py b/curvepy/map.py
index cda4fbd..b40c679 100644
--- a/curvepy/map.py
+++ b/curvepy/map.py
@@ -7,10 +7,11 @@ class Map(Curve):
         return self.curve.domain
 
     def __init__(self, func, tfm, skip_none=False, min_step=MIN_STEP, name=None):
+        func = Curve.parse(func)
         if bool(func.min_step) and func.min_step > min_step:
             min_step = func.min_step
         super().__init__(min_step=min_step)
-        self.curve = Curve.parse(func)
+        self.curve = func
         self.skip_none = skip_none
         self.name = name
 
-- 
2.43.0


From 683ee355681521e2d4c4506847e9a76462dedfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 25/71] fix: a constant has no value outside its domain

---
 curvepy/constant.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/constant.py b/curvepy/constant.py
index 2efa67b..34819eb 100644
--- a/curvepy/constant.py
+++ b/curvepy/constant.py
@@ -39,6 +39,8 @@ class Constant(Curve):
             return super().__repr__() + f'({e})'
 
     def y(self, x):
+        if not self.domain.contains(x):
+            return None
         return self.value
 
     def d_y(self, x, forward=False, min_step=MIN_STEP, limit=None):
-- 
2.43.0


From 0ce142633cc31a3497638e9626a8f97bd3279a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 26/71] fix: refresh an extension whenever its function updates

With one end extended, or after an update near an edge, the extension kept
its old value and its old domain, and the intervals given to begin_update()
and end_update() could differ, leaving the extension updating forever.
---
 curvepy/extension/extension.py | 24 ++++++++++++++----------
 curvepy/extension/tangent.py   |  5 +++++
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 739f9df..0ad69c5 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -118,18 +118,22 @@ class Extension(Curve):
             (self.end and domain >= self.extension_interval)
 
     def begin_extension_update(self, domain):
-        if self.is_in_extension(domain):
-            self.begin_update(self.extension_interval)
-        else:
-            self.begin_update(domain)
+        self.begin_update(self._extended_update_interval(domain))
 
     def end_extension_update(self, domain):
-        if self.is_in_extension(domain):
-            self._extension_stale = True
-            self._update_extension_interval()
-            self.end_update(self.extension_interval)
-        else:
-            self.end_update(domain)
+        self._extension_stale = True
+        self._extension_interval_stale = True
+        self._update_extension_interval()
+        self.end_update(self._extended_update_interval(domain))
+
+    def _extended_update_interval(self, domain):
+        # An extension depends on the function's values up to its edge
+        domains = [domain]
+        if self.start:
+            domains.append(domain.get_lte())
+        if self.end:
+            domains.append(domain.get_gte())
+        return Interval.union(domains)
 
     def _update_extension_interval(self):
         if not self._extension_interval_stale:
diff --git a/curvepy/extension/tangent.py b/curvepy/extension/tangent.py
index 2aa6eb4..fd30204 100644
--- a/curvepy/extension/tangent.py
+++ b/curvepy/extension/tangent.py
@@ -23,6 +23,11 @@ class TangentExtension(Extension):
         super().__init__(func, **kwargs)
 
     def update_extension(self):
+        if self.curve.domain.is_empty:
+            self.start_valid = False
+            self.end_valid = False
+            return
+
         if self.start:
             x = self.curve.domain.start
             if x is not None and self.curve.domain.start_open and self.curve.domain.contains(x + self.min_step):
-- 
2.43.0


From 8ad7726102c1c1fac430e009c8ff0ac6d6f384f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 27/71] fix: check raise_on_empty against the refreshed
 extension

---
 curvepy/extension/extension.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 0ad69c5..19eee96 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -162,7 +162,4 @@ class Extension(Curve):
         self._extension_interval_stale = True
 
         self.update_extension()
-        if (self.start and not self.extension_interval.is_negative_infinite) or (self.end and not self.extension_interval.is_positive_infinite):
-            if self.raise_on_empty:
-                raise Exception('Unable to extend func')
         self._update_extension_interval()
-- 
2.43.0


From 46e10b0d97030ca1ee11f9a58057321a704390a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 28/71] fix: announce every position changed by Points.replace

Values are interpolated between points, so replacing one changes
everything up to its neighbours.
---
 curvepy/points.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index 8ccccec..d0c87f2 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -97,7 +97,17 @@ class Points(Curve):
         if point[0] != nearest_p[0] and self._force_equally_spaced:
             raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
 
-        update_domain = Interval.point(point[0])
+        # The values up to the neighbouring points are interpolated from this one
+        previous_i = nearest_i - 1
+        next_i = nearest_i if point[0] != nearest_p[0] else nearest_i + 1
+        has_previous = previous_i >= 0
+        has_next = next_i < len(self._points)
+        update_domain = Interval(
+            self._points[previous_i][0] if has_previous else point[0],
+            self._points[next_i][0] if has_next else point[0],
+            start_open=has_previous,
+            end_open=has_next
+        )
         self.begin_update(update_domain)
 
         if point[0] != nearest_p[0]:
-- 
2.43.0


From 776f0949313ae75d4d93865fff1a119d8ae5af3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 29/71] fix: appending to irregular points does not make them
 regular

---
 curvepy/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index d0c87f2..256357d 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -80,7 +80,7 @@ class Points(Curve):
         if self._force_equally_spaced and not is_equally_spaced:
             raise Exception('Attempting to append points at non-regular intervals: {}{} + {}{}'.format('...' if len(self._points) > 2 else '', self._points[len(self._points) - 2:], points[:2], '...' if len(points) > 2 else ''))
         self.begin_update(domain)
-        self._is_equally_spaced = is_equally_spaced
+        self._is_equally_spaced = self._is_equally_spaced and is_equally_spaced
         self._points += points
         self._did_change_points()
         self.end_update(domain)
-- 
2.43.0


From e4b26f31cdb3571d2e41efdbd91e712f2587b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 30/71] fix: find irregular points between the first and last

---
 curvepy/points.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/curvepy/points.py b/curvepy/points.py
index 256357d..f46f438 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -233,6 +233,13 @@ class Points(Curve):
         else:
             interval = new_points[1][0] - new_points[0][0]
 
+        if not self._force_equally_spaced:
+            # Points between the first and last may be irregular
+            first_step = steps - new_points_len + 1
+            for i, p in enumerate(new_points):
+                if p[0] != start + interval * (first_step + i):
+                    return False
+
         expected_last_x = start + interval * steps
         return new_points[-1][0] == expected_last_x
 
-- 
2.43.0


From 2e82c45b95004b56c13f2872be762ec831845cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 31/71] fix: apply a step's limit in the offset function's own
 positions

---
 curvepy/offset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index b800bbf..838a8f7 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -66,7 +66,7 @@ class Offset(Curve):
         if self.duration:
             x1 = self.duration.previous(x)
         else:
-            x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
+            x1 = self.curve.x_previous(x, min_step=min_step, limit=self._unoffset_x(limit, floor=False))
         if x1 is None or not self.curve.domain.contains(x1):
             return None
         return self._offset_x(x1, floor=False)
@@ -78,7 +78,7 @@ class Offset(Curve):
         if self.duration:
             x1 = self.duration.next(x)
         else:
-            x1 = self.curve.x_next(x, min_step=min_step, limit=limit)
+            x1 = self.curve.x_next(x, min_step=min_step, limit=self._unoffset_x(limit, floor=True))
         if x1 is None or not self.curve.domain.contains(x1):
             return None
         return self._offset_x(x1, floor=True)
-- 
2.43.0


From 168ac2c49bf041e205e0abdc67095a60550630df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 32/71] fix: limit the step of an extension, not the
 measurement of it

---
 curvepy/extension/extension.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 19eee96..64021bb 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -91,25 +91,29 @@ class Extension(Curve):
         return None
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        x1 = self.curve.x_previous(x, min_step=min_step)
+        x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
         if x1 is None and self.start:
             # Keep returning extension with same step
-            x0 = self.curve.x_next(self.curve.domain.start, min_step=min_step, limit=limit)
+            x0 = self.curve.x_next(self.curve.domain.start, min_step=min_step)
             if x0 is None:
                 return None
             step = x0 - self.curve.domain.start
             x1 = x - step
+            if limit is not None and x1 < limit:
+                x1 = limit
         return x1
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
-        x1 = self.curve.x_next(x, min_step=min_step)
+        x1 = self.curve.x_next(x, min_step=min_step, limit=limit)
         if x1 is None and self.end:
             # Keep returning extension with same step
-            x0 = self.curve.x_previous(self.curve.domain.end, min_step=min_step, limit=limit)
+            x0 = self.curve.x_previous(self.curve.domain.end, min_step=min_step)
             if x0 is None:
                 return None
             step = self.curve.domain.end - x0
             x1 = x + step
+            if limit is not None and x1 > limit:
+                x1 = limit
         return x1
 
     def is_in_extension(self, x):
-- 
2.43.0


From f36ad7cd492b07f395fef0ab8594544620b1a22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 33/71] fix: discard values scanned while an update was in
 progress

---
 curvepy/scan.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/curvepy/scan.py b/curvepy/scan.py
index 32b0b7c..8e08ae0 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -97,6 +97,16 @@ class Scan(Curve):
 
     def begin_scan_update(self, domain):
         domain = self._update_interval(domain)
+        self._reset_stale_scan(domain)
+        self.begin_update(domain)
+
+    def end_scan_update(self, domain):
+        domain = self._update_interval(domain)
+        # Values scanned since the update began are outdated
+        self._reset_stale_scan(domain)
+        self.end_update(domain)
+
+    def _reset_stale_scan(self, domain):
         if self.current is not None:
             if domain.start < self.current or (domain.start == self.current and not domain.start_open):
                 self.reset_scan()
@@ -104,11 +114,5 @@ class Scan(Curve):
         if self.current is not None and self.scan_start is not None and self.current < self.scan_start:
             self.reset_scan()
 
-        self.begin_update(domain)
-
-    def end_scan_update(self, domain):
-        domain = self._update_interval(domain)
-        self.end_update(domain)
-
     def _update_interval(self, domain):
         return Interval(domain.start, math.inf, start_open=domain.start_open, end_open=True)
-- 
2.43.0


From 6029ab7e21277e395fa3658918b722605716a4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 34/71] fix: drop a trend's points and lines when its scan
 restarts

---
 curvepy/trend.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 41d68b3..c54da22 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -90,6 +90,12 @@ class Trend(Scan):
 
         return is_empty
 
+    def reset_scan(self):
+        super().reset_scan()
+        self.points = []
+        self.nested_upper_lines = [[]]
+        self.nested_lower_lines = [[]]
+
     def begin_update(self, domain):
         super().begin_update(domain)
 
-- 
2.43.0


From 154d1aabdb64dcd9e754621c08ff4e53dca22543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 35/71] fix: announce a change of an extension once

Refreshing the lines at its ends announced a second update over everything,
after the extended values had changed, also when the refresh came with the
first query.
---
 curvepy/extension/extension.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 64021bb..57f1c3f 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -36,10 +36,8 @@ class Extension(Curve):
         self.end_func = None
         if self.start:
             self.start_func = self.create_extension_func(start=True)
-            self.start_func.add_observer(self, begin=self.begin_update, end=self.end_update)
         if self.end:
             self.end_func = self.create_extension_func(start=False)
-            self.end_func.add_observer(self, begin=self.begin_update, end=self.end_update)
 
     def __del__(self):
         self.curve.remove_observer(self)
-- 
2.43.0


From 3d149245567121e2b699b679082da70fbe67fadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:21 +0000
Subject: [PATCH 36/71] fix: count sampling bins from the start of the domain,
 halves upwards

---
 curvepy/curve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index b324972..2e1cd44 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -176,7 +176,7 @@ class Curve:
         elif not domain.is_finite:
             raise Exception("Cannot sample points on an infinite domain {}. Specify a finite domain.".format(domain))
         x_start, x_end = domain
-        x_end_bin = round(x_end / min_step) if min_step is not None else x_end
+        x_end_bin = math.floor((x_end - x_start) / min_step + 0.5) if min_step is not None else x_end
         if domain.start_open:
             points = []
         else:
@@ -192,12 +192,12 @@ class Curve:
             while x is not None and x > x_start and domain.contains(x):
                 y = self.y(x)
                 points.append((x, y))
-                x_bin = round(x / min_step) if min_step is not None else x
+                x_bin = math.floor((x - x_start) / min_step + 0.5) if min_step is not None else x
                 if x_bin == x_end_bin:
                     break
                 x1 = self.x_next(x, min_step=min_step, limit=x_end)
                 if x1 is not None:
-                    x1_bin = round(x1 / min_step) if min_step is not None else x1
+                    x1_bin = math.floor((x1 - x_start) / min_step + 0.5) if min_step is not None else x1
                     if x1_bin <= x_bin:
                         raise Exception('Next x value {} should be greater than the previous x value {} by at least the minimum step of {}'.format(x1, x, min_step))
                 x = x1
-- 
2.43.0


From 0c84741b1e1d2013a8a2615f3ebf84b876d41f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 37/71] fix: keep the offset method of an offset curve callable

---
 curvepy/offset.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index 838a8f7..42ccbe1 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -16,11 +16,11 @@ class Offset(Curve):
     def __init__(self, func, offset, duration=None):
         super().__init__()
         self.curve = Curve.parse(func)
-        self.offset = offset
+        self._offset = offset
         self.duration = None
         if duration is not None:
             self.duration = Duration.parse(duration)
-            if type(self.offset) != int:
+            if type(self._offset) != int:
                 raise Exception('Offset must be an interger when duration is defined')
         self._observer_token = self.curve.add_observer(
             begin=self.begin_offset_update, end=self.end_offset_update, prioritize=True)
@@ -30,7 +30,7 @@ class Offset(Curve):
 
     def __repr__(self):
         try:
-            return f'{self.curve}.offset({self.offset})'
+            return f'{self.curve}.offset({self._offset})'
         except Exception as e:
             return super().__repr__() + f'({e})'
 
@@ -93,17 +93,17 @@ class Offset(Curve):
         if x is None or math.isinf(x):
             return x
         if self.duration is None:
-            return x + self.offset
+            return x + self._offset
         else:
-            return self._res_step(x, self.offset, floor=floor)
+            return self._res_step(x, self._offset, floor=floor)
 
     def _unoffset_x(self, x, floor=False):
         if x is None or math.isinf(x):
             return x
         if self.duration is None:
-            return x - self.offset
+            return x - self._offset
         else:
-            return self._res_step(x, -self.offset, floor=floor)
+            return self._res_step(x, -self._offset, floor=floor)
 
     def _res_step(self, x, count, floor=False):
         if count == 0:
-- 
2.43.0


From 2984eeacd1f44cb821bd35b54f8d5cd0032475ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:51 +0000
Subject: [PATCH 38/71] fix: sample no point from a position when none is asked
 for

---
 curvepy/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 2e1cd44..ce86b58 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -219,7 +219,7 @@ class Curve:
         x1 = x
         i = 0
 
-        if not open:
+        if not open and limit != 0:
             if x is None:
                 return points
             y = self.y(x)
-- 
2.43.0


From 7047d5bdcdd667dd3e224071e378aa0a2feb74c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 39/71] fix: interpolate a moving average between positions
 with the right weights

---
 curvepy/sma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 5f81533..8bdd1e3 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -107,7 +107,7 @@ class SMA(Integral):
             if sma01 is None:
                 return None
             u = (x - x01) / (x1 - x01)
-            sma = u * sma01 + (1 - u) * sma1
+            sma = u * sma1 + (1 - u) * sma01
             return sma
         return sma
 
-- 
2.43.0


From dc989d7b530becfc8251f84fb70afd819f8877b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 40/71] fix: let a scan look ahead of the position asked for on
 curves without positions of their own

---
 curvepy/scan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/curvepy/scan.py b/curvepy/scan.py
index 8e08ae0..10db1f5 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -58,7 +58,9 @@ class Scan(Curve):
                 self.scan_start = self.init_scan(x)
                 current = self.scan_start
             else:
-                current = self.x_next(self.current, min_step=self.min_step, limit=x0)
+                # A scan which looks ahead is not limited to the position asked for
+                limit = x0 if self.current < x0 else None
+                current = self.x_next(self.current, min_step=self.min_step, limit=limit)
             if current is None or not self.curve.domain.contains(current):
                 break
             if self.current is not None and current <= self.current:
-- 
2.43.0


From a55f47586a82cfc6b051350e79ec4867027d2740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 41/71] fix: widen a trend line of negative values by its
 relative tolerance

---
 curvepy/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index c54da22..aa57c60 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -855,7 +855,7 @@ class TrendLine(Sequence):
         if self.y_tol_abs is not None:
             y_min = y - self.y_tol_abs
         if self.y_tol_rel is not None and abs(y) > EPSILON_ZERO:
-            y_min_rel = y * (1 - self.y_tol_rel)
+            y_min_rel = y - abs(y) * self.y_tol_rel
             if y_min is None:
                 y_min = y_min_rel
             else:
@@ -869,7 +869,7 @@ class TrendLine(Sequence):
         if self.y_tol_abs is not None:
             y_max = y + self.y_tol_abs
         if self.y_tol_rel is not None and abs(y) > EPSILON_ZERO:
-            y_max_rel = y * (1 + self.y_tol_rel)
+            y_max_rel = y + abs(y) * self.y_tol_rel
             if y_max is None:
                 y_max = y_max_rel
             else:
-- 
2.43.0


From da10b93e227157f79ea0c1a238d15068c320eaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 42/71] fix: apply relative tolerances to trend points at zero
 and below

---
 curvepy/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index aa57c60..57495be 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -1007,7 +1007,7 @@ def _is_strictly_convex_points(points, y_tol_rel=None, y_tol_abs=None):
         return False
     if y_tol_abs is not None and y0 - y < y_tol_abs:
         return False
-    if y_tol_rel is not None and abs(y0) > EPSILON_ZERO and abs(y) > EPSILON_ZERO and y0 / y - 1 < y_tol_rel:
+    if y_tol_rel is not None and y0 - y < abs(y) * y_tol_rel:
         return False
     return True
 
@@ -1027,7 +1027,7 @@ def _is_value_within_tolerance(y, y0, y_tol_rel=None, y_tol_abs=None):
         return False
     if y_tol_abs is not None and abs(y - y0) > y_tol_abs:
         return False
-    if y_tol_rel is not None and abs(y0) > EPSILON_ZERO and abs(y) > EPSILON_ZERO and abs(y / y0 - 1) > y_tol_rel:
+    if y_tol_rel is not None and abs(y - y0) > max(abs(y0) * y_tol_rel, EPSILON_ZERO):
         return False
     return True
 
-- 
2.43.0


From b6e86a1f1506bc323820cbfd85c5d10087caa897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 43/71] fix: keep the points of a trend line in ascending order

---
 curvepy/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 57495be..6991438 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -466,7 +466,7 @@ class TrendLine(Sequence):
                     resulting_points.append(p)
             resulting_points.insert(0, line[0])
             resulting_points.append(line[1])
-            return resulting_points
+            return sorted(resulting_points, key=lambda p: p[0])
 
         final_points = add_coincident_points(final_line, coincident_points)
         self.trend_points = final_points
-- 
2.43.0


From 363d48731fa690f6444af293fda77cf0d6fd50b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 44/71] fix: the derivative of a sine curve includes its
 frequency

---
 curvepy/sin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/sin.py b/curvepy/sin.py
index 9d23cd8..af1248a 100644
--- a/curvepy/sin.py
+++ b/curvepy/sin.py
@@ -41,5 +41,5 @@ class Sin(Curve):
         return self.amplitude * math.sin(self.x_coef * x + self.phase)
 
     def d_y(self, x, forward=False, min_step=MIN_STEP, limit=None):
-        return self.amplitude * math.cos(self.x_coef * x + self.phase)
+        return self.amplitude * self.x_coef * math.cos(self.x_coef * x + self.phase)
         
\ No newline at end of file
-- 
2.43.0


From d246fd263d80f94b3b7465a22692b58fbbacc6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 45/71] fix: tell positions of an extension from those of the
 extended curve

---
 curvepy/extension/extension.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 57f1c3f..3295525 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -116,8 +116,10 @@ class Extension(Curve):
 
     def is_in_extension(self, x):
         domain = Interval.parse(x)
-        return (self.start and domain <= self.extension_interval) or \
-            (self.end and domain >= self.extension_interval)
+        self._update_extension_interval()
+        if domain.is_empty or self.curve.domain.is_empty:
+            return False
+        return self.extension_interval.is_superset_of(domain) and not self.curve.domain.intersects(domain)
 
     def begin_extension_update(self, domain):
         self.begin_update(self._extended_update_interval(domain))
-- 
2.43.0


From 9baa31463953cfbe74180c776e6ca412051c2e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 46/71] fix: a constant extension of nothing is empty

---
 curvepy/extension/constant.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/extension/constant.py b/curvepy/extension/constant.py
index 9f78654..ac9a6cc 100644
--- a/curvepy/extension/constant.py
+++ b/curvepy/extension/constant.py
@@ -16,17 +16,21 @@ class ConstantExtension(Extension):
                 self.start_func.value = None
             if self.end:
                 self.end_func.value = None
+            self.start_valid = False
+            self.end_valid = False
             return
 
         if self.start:
             x = self.curve.domain.start
             y = self.curve.y(x)
             self.start_func.value = y
+            self.start_valid = y is not None
 
         if self.end:
             x = self.curve.domain.end
             y = self.curve.y(x)
             self.end_func.value = y
+            self.end_valid = y is not None
 
     def create_extension_func(self, start=False):
         return Constant(0)
-- 
2.43.0


From 8c00e6c1856b94b698e1011bce4b07d2ba1ac6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 47/71] fix: raise whenever an extension that must not be empty
 is

---
 curvepy/extension/extension.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 3295525..974cf0c 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -157,6 +157,8 @@ class Extension(Curve):
         self.update_extension_interval()
         if (self.start and not self.extension_interval.is_negative_infinite) or (self.end and not self.extension_interval.is_positive_infinite):
             if self.raise_on_empty:
+                # Raise again when asked again
+                self._extension_interval_stale = True
                 raise Exception('Unable to extend func')
             
     def _update_extension_if_needed(self):
-- 
2.43.0


From ec599444288c24bd2af2715ab5c30abc2b650968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 48/71] fix: a tangent fitted to more points than there are
 uses those there are

---
 curvepy/extension/tangent.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/curvepy/extension/tangent.py b/curvepy/extension/tangent.py
index fd30204..081650a 100644
--- a/curvepy/extension/tangent.py
+++ b/curvepy/extension/tangent.py
@@ -37,7 +37,10 @@ class TangentExtension(Extension):
             if self.regression_degree is not None:
                 x1 = x
                 for i in range(self.regression_degree):
-                    x1 = self.curve.x_next(x1, min_step=self.min_step)
+                    x2 = self.curve.x_next(x1, min_step=self.min_step)
+                    if x2 is None:
+                        break
+                    x1 = x2
                 domain = Interval(x, x1)
                 tangent = self.curve.regression(domain, min_step=self.min_step)
                 if tangent is not None:
@@ -66,7 +69,10 @@ class TangentExtension(Extension):
             if self.regression_degree is not None:
                 x0 = x
                 for i in range(self.regression_degree):
-                    x0 = self.curve.x_previous(x0, min_step=self.min_step)
+                    x2 = self.curve.x_previous(x0, min_step=self.min_step)
+                    if x2 is None:
+                        break
+                    x0 = x2
                 domain = Interval(x0, x)
                 tangent = self.curve.regression(domain, min_step=self.min_step)
                 if tangent is not None:
-- 
2.43.0


From e6da5ffcd22b0b740ffc9a79631ee3d57c4341b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 49/71] fix: extend a curve by a sine of the right amplitude
 where it crosses zero

---
 curvepy/extension/sin.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/curvepy/extension/sin.py b/curvepy/extension/sin.py
index fb3264c..ebdb9d4 100644
--- a/curvepy/extension/sin.py
+++ b/curvepy/extension/sin.py
@@ -29,9 +29,6 @@ class SinExtension(TangentExtension):
         phase = math.atan2(num, den)
 
         # amplitude
-        if (angle + phase) % math.pi != 0:
-            amplitude = y / math.sin(angle + phase)
-        else:
-            amplitude = dy / (x_coef * math.cos(angle + phase))
+        amplitude = math.sqrt((x_coef * y) ** 2 + dy ** 2) / x_coef
 
         sin.set(amplitude=amplitude, period=self.period, phase=phase)
-- 
2.43.0


From c970c187e99042613586fed8a10db03c23fc81f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 50/71] fix: a constant without value has no derivative

---
 curvepy/constant.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/constant.py b/curvepy/constant.py
index 34819eb..a7822da 100644
--- a/curvepy/constant.py
+++ b/curvepy/constant.py
@@ -44,6 +44,8 @@ class Constant(Curve):
         return self.value
 
     def d_y(self, x, forward=False, min_step=MIN_STEP, limit=None):
+        if self.y(x) is None:
+            return None
         return 0.0
 
     def x(self, y):
-- 
2.43.0


From 6743034a703e12e556209feeb0477033e392eded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 51/71] fix: the steps between extremas do not depend on what
 was scanned before

---
 curvepy/extremas.py | 5 +++++
 curvepy/scan.py     | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index 82c7cd2..f716297 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -1,4 +1,5 @@
 import bisect
+import math
 from .scan import Scan
 from .curve import Curve, MIN_STEP
 from intervalpy import Interval
@@ -51,6 +52,8 @@ class Extremas(Scan):
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
+        if math.isfinite(x - min_step):
+            self.scan(x - min_step)
         if self.extrema_interval.contains(x - min_step):
             i = bisect.bisect_left(self.extrema_xs, x - min_step)
             x1 = self.extremas[i][0]
@@ -61,6 +64,8 @@ class Extremas(Scan):
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
+        if math.isfinite(x + min_step):
+            self.scan(x + min_step)
         if self.extrema_interval.contains(x + min_step):
             i = bisect.bisect_left(self.extrema_xs, x + min_step)
             x1 = self.extremas[i][0]
diff --git a/curvepy/scan.py b/curvepy/scan.py
index 10db1f5..494326e 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -60,7 +60,7 @@ class Scan(Curve):
             else:
                 # A scan which looks ahead is not limited to the position asked for
                 limit = x0 if self.current < x0 else None
-                current = self.x_next(self.current, min_step=self.min_step, limit=limit)
+                current = self.curve.x_next(self.current, min_step=self.min_step, limit=limit)
             if current is None or not self.curve.domain.contains(current):
                 break
             if self.current is not None and current <= self.current:
-- 
2.43.0


From dbacaf05e74b49929b295e01ac44bf435888a0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 52/71] fix: a piecewise curve does not step onto its open ends

---
 curvepy/piecewise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/piecewise.py b/curvepy/piecewise.py
index 6801d63..d3b0f4c 100644
--- a/curvepy/piecewise.py
+++ b/curvepy/piecewise.py
@@ -45,7 +45,7 @@ class Piecewise(Curve):
             return d.contains(x)
         z = max(filter(x_previous_f, x_map_d), default=None)
         x1 = z[0] if z is not None else None
-        if x1 is None and self.domains[0].contains(x):
+        if x1 is None and self.domains[0].contains(x) and not self.domains[0].start_open:
             return self.domains[0].start
         return x1
 
@@ -61,6 +61,6 @@ class Piecewise(Curve):
             return d.contains(x)
         z = min(filter(x_next_f, x_map_d), default=None)
         x1 = z[0] if z is not None else None
-        if x1 is None and self.domains[-1].contains(x):
+        if x1 is None and self.domains[-1].contains(x) and not self.domains[-1].end_open:
             return self.domains[-1].end
         return x1
-- 
2.43.0


From 3f905d088f11c9c84afd79789fda300712a0ec00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:33 +0000
Subject: [PATCH 53/71] fix: blend over any window, wherever the first curve is
 defined

---
 curvepy/curve.py     |  4 ++--
 curvepy/piecewise.py | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index ce86b58..449e8c9 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -549,8 +549,8 @@ class Curve:
         c = Aggregate([self, func], tfm=blend_f, name='blend')
 
         funcs = [self, c, func]
-        domains = self.domain.partition([x_blend_start, x_blend_stop])
-        return Piecewise(funcs, domains)
+        domains = [Interval.lt(x_blend_start), Interval.closed_open(x_blend_start, x_blend_stop), Interval.gte(x_blend_stop)]
+        return Piecewise(funcs, domains, within=self)
 
     def extension(self, name, start=False, end=True, raise_on_empty=False, **kwds):
         from .extension import ConstantExtension
diff --git a/curvepy/piecewise.py b/curvepy/piecewise.py
index d3b0f4c..0b1cd32 100644
--- a/curvepy/piecewise.py
+++ b/curvepy/piecewise.py
@@ -6,15 +6,24 @@ class Piecewise(Curve):
     def get_domain(self):
         return Interval.union(self.domains)
 
-    def __init__(self, funcs, domains):
+    @property
+    def domains(self):
+        if self.within is None:
+            return self._domains
+        domain = self.within.domain
+        return [Interval.intersection([domain, d]) for d in self._domains]
+
+    def __init__(self, funcs, domains, within=None):
         """
         `domains` are assumed to be in ascending order and not overlapping.
+        If a curve `within` is given, the sub-domains are restricted to its domain.
         """
         super().__init__()
         if len(funcs) != len(domains):
             raise Exception("Must specify sub-domains for all sub-functions in a piecewise function")
         self.funcs = Curve.parse_many(funcs)
-        self.domains = Interval.parse_many(domains)
+        self._domains = Interval.parse_many(domains)
+        self.within = within
         unique_funcs = list(set(list(self.funcs)))
         self._observer_tokens = list(map(lambda f: f.add_observer(begin=self.begin_update, end=self.end_update, prioritize=True), unique_funcs))
 
@@ -23,8 +32,9 @@ class Piecewise(Curve):
             func.remove_observer(token)
 
     def y(self, x):
-        for i in range(len(self.domains)):
-            d = self.domains[i]
+        domains = self.domains
+        for i in range(len(domains)):
+            d = domains[i]
             if not d.contains(x, enforce_start=False):
                 continue
             elif not d.contains(x, enforce_end=False):
-- 
2.43.0


From 769f2cdb28e2ea72de1accfd2ee88beac6ae4980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 54/71] fix: the derivative of a curve computed from lines is a
 number

---
 curvepy/curve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 449e8c9..e7ffc79 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -89,6 +89,7 @@ class Curve:
         return (d.end, self.y(d.end))
 
     def d_y(self, x, forward=False, min_step=MIN_STEP, limit=None):
+        step = min_step if min_step is not None and not math.isinf(min_step) else MIN_STEP
         min_step = self.resolve_min_step(min_step)
         if forward:
             x1 = self.x_next(x, min_step=min_step, limit=limit)
@@ -97,6 +98,9 @@ class Curve:
 
         if x1 is None:
             return None
+        if math.isinf(x1):
+            # There is no slope towards infinity
+            x1 = x + step if forward else x - step
         y1 = self.y(x1)
         if y1 is None:
             return None
-- 
2.43.0


From f3b95a6deccf71df657c0107583bb012285f018a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:20 +0000
Subject: [PATCH 55/71] fix: a curve that steps to the ends of its domain does
 not step from an end onto itself

---
 curvepy/curve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index e7ffc79..e7064ae 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -122,6 +122,8 @@ class Curve:
         min_step = self.resolve_min_step(min_step)
         if math.isinf(min_step):
             x1 = self.domain.end
+            if x1 is None or x1 <= x:
+                return None
         else:
             x1 = x + min_step
         if limit is not None and x1 > limit:
@@ -134,6 +136,8 @@ class Curve:
         min_step = self.resolve_min_step(min_step)
         if math.isinf(min_step):
             x1 = self.domain.start
+            if x1 is None or x1 >= x:
+                return None
         else:
             x1 = x - min_step
         if limit is not None and x1 < limit:
-- 
2.43.0


From 5ae0f5e10d204adfcf3637eb90757b6f8dcf876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:28 +0000
Subject: [PATCH 56/71] fix: the multiplicative inverse of zero is infinite, as
 the quotient is

---
 curvepy/curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index e7064ae..9a03af2 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -1138,6 +1138,8 @@ def _additive_inverse(x, y):
 def _multiplicative_inverse(x, y):
     if y is None:
         return None
+    if y == 0:
+        return math.inf
     return 1 / y
 
 def _abs(x, y):
-- 
2.43.0


From 03d2f1708e9e6e1da7f7c894c1b32fc885287b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 57/71] fix: a piecewise curve steps on from one piece into the
 next

---
 curvepy/piecewise.py | 60 ++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/curvepy/piecewise.py b/curvepy/piecewise.py
index 0b1cd32..27aec67 100644
--- a/curvepy/piecewise.py
+++ b/curvepy/piecewise.py
@@ -42,35 +42,45 @@ class Piecewise(Curve):
             f = self.funcs[i]
             return f.y(x)
         return None
-    
+
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        # FIXME: infinite funcs don't work (unit tests disabled)
         min_step = self.resolve_min_step(min_step)
-        if not self.domain.contains(x - min_step, enforce_end=False):
+        x_max = x - min_step
+        if not self.domain.contains(x_max, enforce_end=False):
             return None
-        x_map = map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs)
-        x_map_d = zip(x_map, self.domains)
-        def x_previous_f(z):
-            x, d = z
-            return d.contains(x)
-        z = max(filter(x_previous_f, x_map_d), default=None)
-        x1 = z[0] if z is not None else None
-        if x1 is None and self.domains[0].contains(x) and not self.domains[0].start_open:
-            return self.domains[0].start
-        return x1
+        for f, d in reversed(list(zip(self.funcs, self.domains))):
+            if d.is_empty or d.start > x_max:
+                continue
+            if d.end > x_max:
+                x1 = f.x_previous(x, min_step=min_step, limit=limit)
+            else:
+                # Not further than where this sub-domain is entered
+                x1 = f.x_previous(x, min_step=min_step, limit=d.end)
+                if not d.contains(x1):
+                    x1 = d.end if not d.end_open else f.x_previous(d.end, min_step=min_step, limit=limit)
+            if d.contains(x1):
+                return x1
+            if not d.start_open:
+                return d.start
+        return None
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
-        # FIXME: infinite funcs don't work (unit tests disabled)
         min_step = self.resolve_min_step(min_step)
-        if not self.domain.contains(x + min_step, enforce_start=False):
+        x_min = x + min_step
+        if not self.domain.contains(x_min, enforce_start=False):
             return None
-        x_map = map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs)
-        x_map_d = zip(x_map, self.domains)
-        def x_next_f(z):
-            x, d = z
-            return d.contains(x)
-        z = min(filter(x_next_f, x_map_d), default=None)
-        x1 = z[0] if z is not None else None
-        if x1 is None and self.domains[-1].contains(x) and not self.domains[-1].end_open:
-            return self.domains[-1].end
-        return x1
+        for f, d in zip(self.funcs, self.domains):
+            if d.is_empty or d.end < x_min:
+                continue
+            if d.start < x_min:
+                x1 = f.x_next(x, min_step=min_step, limit=limit)
+            else:
+                # Not further than where this sub-domain is entered
+                x1 = f.x_next(x, min_step=min_step, limit=d.start)
+                if not d.contains(x1):
+                    x1 = d.start if not d.start_open else f.x_next(d.start, min_step=min_step, limit=limit)
+            if d.contains(x1):
+                return x1
+            if not d.end_open:
+                return d.end
+        return None
-- 
2.43.0


From 53347230d3128cbb280557a3f25c03e632c1f6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:37 +0000
Subject: [PATCH 58/71] fix: every zero curve is a curve of its own

---
 curvepy/constant.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/curvepy/constant.py b/curvepy/constant.py
index a7822da..66d1005 100644
--- a/curvepy/constant.py
+++ b/curvepy/constant.py
@@ -10,7 +10,7 @@ class Constant(Curve):
 
     @classmethod
     def zero(cls):
-        return _zero
+        return cls(0)
 
     @value.setter
     def value(self, value):
@@ -52,5 +52,3 @@ class Constant(Curve):
         if y == self.value:
             return 0.0
         return None
-
-_zero = Constant(0)
-- 
2.43.0


From 25f95d33605ca68c1cde60dec7a3aecb5c63d90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 59/71] fix: announce that later points confirm earlier
 extremas and form earlier trend lines

---
 curvepy/extremas.py | 10 +++++++++-
 curvepy/trend.py    | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index f716297..15f13a5 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -75,7 +75,10 @@ class Extremas(Scan):
         return self.curve.x_next(x, min_step=min_step, limit=limit)
 
     def begin_update(self, domain):
-        super().begin_update(domain)
+        if domain.is_empty:
+            return
+        # Later points confirm earlier extremas
+        super().begin_update(Interval.infinite())
         # remove stale points
         for i in reversed(range(len(self.extremas))):
             x = self.extrema_xs[i]
@@ -97,6 +100,11 @@ class Extremas(Scan):
             self.possible_extrema = last_extrema
             self.possible_extrema_phase = last_extrema[1] - self.ref_func(x)
 
+    def end_update(self, domain):
+        if domain.is_empty:
+            return
+        super().end_update(Interval.infinite())
+
     def sample_points(self, domain=None, min_step=MIN_STEP, step=None):
         points = super().sample_points(domain=domain, min_step=min_step, step=step)
         return list(filter(lambda p: p[1] is not None, points))
diff --git a/curvepy/trend.py b/curvepy/trend.py
index 6991438..3696722 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -97,7 +97,10 @@ class Trend(Scan):
         self.nested_lower_lines = [[]]
 
     def begin_update(self, domain):
-        super().begin_update(domain)
+        if domain.is_empty:
+            return
+        # Later points form lines which begin earlier
+        super().begin_update(Interval.infinite())
 
         # remove stale points
         for i in reversed(range(len(self.points))):
@@ -125,6 +128,11 @@ class Trend(Scan):
         update_nested_line_array(self.nested_upper_lines)
         update_nested_line_array(self.nested_lower_lines)
 
+    def end_update(self, domain):
+        if domain.is_empty:
+            return
+        super().end_update(Interval.infinite())
+
     def _scanned_upper(self, x):
         filtered_lines = []
         for lines in self.nested_upper_lines:
-- 
2.43.0


From 441838bec0f672b6b7e59e8305e97de0d4346575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:26 +0000
Subject: [PATCH 60/71] fix: a curve following several curves reports the end
 of an update once they all ended theirs

---
 curvepy/curve.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 9a03af2..49cb1ac 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -52,6 +52,7 @@ class Curve:
         self._domain = None
         self._observer_data = {}
         self._ordered_observer_tokens = []
+        self._observed_curves = []
         self._begin_update_interval = Interval.empty()
         self._end_update_interval = Interval.empty()
         self.min_step = min_step
@@ -419,6 +420,11 @@ class Curve:
         if end:
             end_with_interval = util.count_positional_args(end) == 1
 
+        # An update of a curve which follows others lasts until they all have ended theirs
+        follower = getattr(end, '__self__', None)
+        if isinstance(follower, Curve) and (domain is None or domain.is_infinite):
+            follower._observed_curves.append(self)
+
         # TODO: does saving strong references to callbacks create a retain cycle?
         self._observer_data[token] = (obj_ref, domain, begin, end, begin_with_interval, end_with_interval)
         if prioritize:
@@ -430,16 +436,22 @@ class Curve:
     def remove_observer(self, token_or_obj):
         if isinstance(token_or_obj, Number):
             if token_or_obj in self._observer_data:
-                del self._observer_data[token_or_obj]
-                self._ordered_observer_tokens.remove(token_or_obj)
+                self._remove_observer_token(token_or_obj)
         else:
             for token in list(self._ordered_observer_tokens):
                 obj_ref = self._observer_data[token][0]
                 if obj_ref is not None:
                     obj = obj_ref()
                     if obj is None or obj == token_or_obj:
-                        del self._observer_data[token]
-                        self._ordered_observer_tokens.remove(token)
+                        self._remove_observer_token(token)
+
+    def _remove_observer_token(self, token):
+        _, _, _, end, _, _ = self._observer_data[token]
+        del self._observer_data[token]
+        self._ordered_observer_tokens.remove(token)
+        follower = getattr(end, '__self__', None)
+        if isinstance(follower, Curve) and self in follower._observed_curves:
+            follower._observed_curves.remove(self)
 
     def begin_update(self, domain):
         if domain.is_empty or self._begin_update_interval.is_superset_of(domain):
@@ -458,13 +470,17 @@ class Curve:
                         callback()
 
     def end_update(self, domain):
-        if domain.is_empty or self._end_update_interval.is_superset_of(domain):
+        if domain.is_empty:
             return
         self._end_update_interval = Interval.union([self._end_update_interval, domain])
         if not self._end_update_interval.is_superset_of(self._begin_update_interval):
             # Keep collecting updates
             return
-        
+        for curve in self._observed_curves:
+            if curve.is_updating:
+                # Reports the end of its own update
+                return
+
         # Updates complete
         update_interval = self._end_update_interval
         self._begin_update_interval = Interval.empty()
-- 
2.43.0


From 26fd5db91b4276ac7f4389c2b0e5ecb0896fcd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:19 +0000
Subject: [PATCH 61/71] fix: a map has no value outside its domain

---
 curvepy/map.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/map.py b/curvepy/map.py
index b40c679..768025f 100644
--- a/curvepy/map.py
+++ b/curvepy/map.py
@@ -34,6 +34,8 @@ class Map(Curve):
         self.curve.remove_observer(self._observer_token)
 
     def y(self, x):
+        if not self.domain.contains(x):
+            return None
         y = self.curve.y(x)
         if y is None and self.skip_none:
             return None
-- 
2.43.0


From 7e64a7eabb00c77b0698f0f4f050869fefe7ab4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 62/71] fix: announce every position of an offset by durations
 that a change reaches, and end its domain at its last step

---
 curvepy/offset.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index 42ccbe1..eb2ca2c 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -11,7 +11,18 @@ class Offset(Curve):
     """
 
     def get_domain(self):
-        return self._offset_interval(self.curve.domain)
+        domain = self.curve.domain
+        if self._is_stepped and not domain.is_empty:
+            # Only whole steps inside the domain of the source are used
+            start, end = domain.start, domain.end
+            if not math.isinf(start):
+                start = self.duration.next(start) if domain.start_open else self.duration.ceil(start)
+            if not math.isinf(end):
+                end = self.duration.previous(end) if domain.end_open else self.duration.floor(end)
+            if start > end:
+                return Interval.empty()
+            domain = Interval.closed(start, end)
+        return self._offset_interval(domain)
 
     def __init__(self, func, offset, duration=None):
         super().__init__()
@@ -84,10 +95,25 @@ class Offset(Curve):
         return self._offset_x(x1, floor=True)
 
     def begin_offset_update(self, domain):
-        self.begin_update(self._offset_interval(domain))
+        self.begin_update(self._offset_update_interval(domain))
 
     def end_offset_update(self, domain):
-        self.end_update(self._offset_interval(domain))
+        self.end_update(self._offset_update_interval(domain))
+
+    @property
+    def _is_stepped(self):
+        return self.duration is not None and self._offset != 0
+
+    def _offset_update_interval(self, domain):
+        if self._is_stepped and not domain.is_empty:
+            # Values depend on the steps around them
+            start, end = domain.start, domain.end
+            if not math.isinf(start):
+                start = self.duration.floor(start) if domain.start_open else self.duration.previous(start)
+            if not math.isinf(end):
+                end = self.duration.ceil(end) if domain.end_open else self.duration.next(end)
+            domain = Interval.open(start, end)
+        return self._offset_interval(domain)
 
     def _offset_x(self, x, floor=False):
         if x is None or math.isinf(x):
-- 
2.43.0


From ef183dcda6d56f45515514aeddc3e8a223e1d4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:13 +0000
Subject: [PATCH 63/71] fix: find every touch and crossing of a trend line,
 whenever its points arrive

---
 curvepy/trend.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 3696722..427c236 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -539,8 +539,8 @@ class TrendLine(Sequence):
         self._line = _line_fit(self.trend_points)
         self._update_trend_tolerance_lines()
         self.reset_points_of_interest()
-        self.update_points_of_interest(underlying_points)
         self.update_interval()
+        self.update_points_of_interest(underlying_points)
         self.reset_prediction()
         self.update_prediction(underlying_points)
 
@@ -621,19 +621,24 @@ class TrendLine(Sequence):
         phase_point = None
         previous_phase = phase
         intersection_found = False
-        intersection_insert_index = len(self.intersections)
-        tangent_insert_index = len(self.tangent_points)
         points_on_trend = []
         new_extremas = []
         extrema = None
         extrema_dist = 0
 
-        # search up to the last intersection or tangent point
+        # Search up to the last extrema: what follows it may be outdated
         update_interval = self.search_interval
-        if len(self.intersections) != 0:
-            update_interval = Interval.intersection([update_interval, Interval.gte(self.intersections[-1][0])])
-        if len(self.tangent_points) != 0:
-            update_interval = Interval.intersection([update_interval, Interval.gt(self.tangent_points[-1][0])])
+        if len(self.extremas) != 0:
+            x_resume = self.extremas[-1][0]
+            update_interval = Interval.intersection([update_interval, Interval.gte(x_resume)])
+            del self.extremas[-1]
+            self.tangent_points = [p for p in self.tangent_points if p[0] < x_resume]
+            self.intersections = [p for p in self.intersections if p[0] < x_resume]
+        else:
+            self.tangent_points = []
+            self.intersections = []
+        intersection_insert_index = len(self.intersections)
+        tangent_insert_index = len(self.tangent_points)
 
         for i in reversed(range(len(underlying_points))):
             p = underlying_points[i]
@@ -681,15 +686,7 @@ class TrendLine(Sequence):
 
         if extrema is not None:
             new_extremas.insert(0, extrema)
-        if len(new_extremas) != 0:
-            # merge extremas with existing ones
-            if len(self.extremas) == 0:
-                self.extremas += new_extremas
-            else:
-                if self.extremas[-1][0] >= update_interval.start:
-                    # old extrema may be outdated
-                    del self.extremas[-1]
-                self.extremas += new_extremas
+        self.extremas += new_extremas
 
         if intersection_found:
             self.update_interval()
-- 
2.43.0


From 03acd82146780008fd30b23b0b79db53fcfac6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:13 +0000
Subject: [PATCH 64/71] fix: count a touch of a trend line once in its
 prediction

---
 curvepy/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 427c236..4d87a9f 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -761,7 +761,7 @@ class TrendLine(Sequence):
             return
 
         for p in points:
-            if self._prediction_x_processed is not None and p[0] < self._prediction_x_processed:
+            if self._prediction_x_processed is not None and p[0] <= self._prediction_x_processed:
                 continue
             point_type = p[2]
             clean_point = (p[0], p[1])
-- 
2.43.0


From 0d748b191be479e9fafa6adb994fe87cd5f1da26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:53 +0000
Subject: [PATCH 65/71] fix: step through an accumulator as through its source,
 whatever has been read

---
 curvepy/accumulator.py | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/curvepy/accumulator.py b/curvepy/accumulator.py
index e76eb7e..39cff07 100644
--- a/curvepy/accumulator.py
+++ b/curvepy/accumulator.py
@@ -25,20 +25,6 @@ class Accumulator(Scan):
         super().reset_scan()
         self.accumulated_points.reset()
 
-    def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        min_step = self.resolve_min_step(min_step)
-        x1 = self.accumulated_points.x_previous(x, min_step=min_step, limit=limit)
-        if x1 is None:
-            x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
-        return x1
-
-    def x_next(self, x, min_step=MIN_STEP, limit=None):
-        min_step = self.resolve_min_step(min_step)
-        x1 = self.accumulated_points.x_next(x, min_step=min_step, limit=limit)
-        if x1 is None:
-            x1 = self.curve.x_next(x, min_step=min_step, limit=limit)
-        return x1
-
     def begin_update(self, domain):
         self.accumulated_points.reset(domain)
         super().begin_update(domain)
-- 
2.43.0


From f3f75ac0190f937b5ed46e2e7169c4ddb53398e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:57 +0000
Subject: [PATCH 66/71] fix: keep the steps of an aggregate inside its domain

---
 curvepy/aggregate.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index a6796aa..3a33969 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -1,3 +1,4 @@
+import math
 from .curve import Curve, MIN_STEP
 from intervalpy import Interval
 from collections.abc import Sequence
@@ -56,10 +57,24 @@ class Aggregate(Curve):
         return self.tfm(x, func_vals)
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        return max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs), x)
+        x1 = max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs), x)
+        domain = self.domain
+        if x1 is None or domain.is_empty or x1 < domain.start:
+            # The functions may go on before the common domain
+            return None
+        if x1 == domain.start and domain.start_open and math.isfinite(x1):
+            return None
+        return x1
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
-        return min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs), x)
+        x1 = min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs), x)
+        domain = self.domain
+        if x1 is None or domain.is_empty or x1 > domain.end:
+            # The functions may go on after the common domain
+            return None
+        if x1 == domain.end and domain.end_open and math.isfinite(x1):
+            return None
+        return x1
 
 
 def min_or_none(iterable, gt):
-- 
2.43.0


From c9410f23720fa2c16f799ecc5341858c61e5bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:02 +0000
Subject: [PATCH 67/71] fix: keep the steps back of a scan inside its domain

---
 curvepy/scan.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/curvepy/scan.py b/curvepy/scan.py
index 494326e..6461984 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -84,7 +84,11 @@ class Scan(Curve):
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
-        return self.curve.x_previous(x, min_step=min_step, limit=limit)
+        x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
+        if x1 is None or self.domain.is_empty or x1 < self.domain.start:
+            # The curve may begin before the scanned values do
+            return None
+        return x1
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
-- 
2.43.0


From 08199646d98492fce6198a2c1de4f0712a803c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:55 +0000
Subject: [PATCH 68/71] fix: positional arguments by name in a description are
 decoded once

---
 curvepy/curve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 49cb1ac..4a85c35 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -988,6 +988,10 @@ class Curve:
                         if len(d) != 1:
                             raise ValueError(f'A decorator (@...) can only have siblings in a fragment')
                         return v
+                    if current_func is None:
+                        # The arguments are parsed already
+                        fragment_vals[k] = v
+                        continue
 
                 elif k.startswith('$'):
                     # This is function descriptor
-- 
2.43.0


From 9e11baf51bd6eb612c06678ffbfeaba28c5a38ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 69/71] fix: literals in a logarithmic decorator of any base
 are converted

---
 curvepy/curve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 4a85c35..9738b23 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -1085,6 +1085,9 @@ class Curve:
                 elif 'log10' in decorators:
                     return math.log(d, 10)
                 else:
+                    for oname in decorators:
+                        if oname.startswith('log'):
+                            return math.log(d, int(oname[3:]))
                     return d
             else:
                 return d
-- 
2.43.0


From f32c0673c2a8168aaff060462d429b75ba9f10f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:06 +0000
Subject: [PATCH 70/71] fix: the spacing of irregular points set anew is judged
 by themselves

---
 curvepy/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index f46f438..5bf703e 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -226,7 +226,7 @@ class Points(Curve):
             start = new_points[0][0]
             steps = new_points_len - 1
 
-        if self.interval is not None:
+        if self.interval is not None and (old_points_len != 0 or self._force_equally_spaced):
             interval = self.interval
         elif old_points_len == 1:
             interval = new_points[0][0] - old_points[-1][0]
-- 
2.43.0


From f68c284b1c128017b2ee0dcf183b4f601ffa5497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:53 +0000
Subject: [PATCH 71/71] fix: a simple moving average of a period longer than
 its data has no value

---
 curvepy/sma.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 8bdd1e3..7033abb 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -20,6 +20,11 @@ class SMA(Integral):
                 p = self.period
             else:
                 p = x - d.start
+                if self.curve.x_next(x, min_step=self.min_step) is None:
+                    x0 = self.curve.x_previous(x, min_step=self.min_step)
+                    if x0 is not None and x + (x - x0) < d.start + self.period:
+                        # The period is not complete yet
+                        return Interval.empty()
         elif self.degree is not None:
             x = d.start
             for _ in range(self.degree - 1):
-- 
2.43.0

