From 76b4362585f6045d736eb06abc7a1b36eef51592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 001/108] fix: re-read point cloud files that contain no points

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index a03ea19..bf2fd19 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -265,7 +265,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         csv_reader = csv.reader(file, delimiter=",")
         next(csv_reader)
         points = [[literal_eval(point) for point in row] for row in csv_reader]
-        points = np.array(points)
+        points = np.array(points).reshape(-1, 3)
 
         return PolarDiagramPointcloud(points)
 
-- 
2.43.0


From ad7b501a961baca02d834c5a283503f2569ea13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 002/108] fix: multi-sail files at paths containing dots or
 given as path objects

---
 hrosailing/polardiagram/_polardiagrammultisails.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrammultisails.py b/hrosailing/polardiagram/_polardiagrammultisails.py
index b48504c..0196077 100644
--- a/hrosailing/polardiagram/_polardiagrammultisails.py
+++ b/hrosailing/polardiagram/_polardiagrammultisails.py
@@ -1,6 +1,7 @@
 # pylint: disable=missing-module-docstring
 
 import csv
+import os
 
 import numpy as np
 
@@ -189,8 +190,9 @@ class PolarDiagramMultiSails(PolarDiagram):
 
     @staticmethod
     def _get_sub_csv_path(path, i):
-        path = "_".join([path.split(".")[0], "sail", str(i)])
-        return f"{path}.csv"
+        directory, name = os.path.split(path)
+        name = "_".join([name.split(".")[0], "sail", str(i)])
+        return os.path.join(directory, f"{name}.csv")
 
     @classmethod
     def __from_csv__(cls, file):
-- 
2.43.0


From 02c3678de8b8a87f1f02d1f27822031ddc403631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 003/108] fix: tables created without boat speeds store their
 resolutions as arrays

---
 hrosailing/polardiagram/_polardiagramtable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index ba0b0a3..f031b08 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -169,8 +169,8 @@ class PolarDiagramTable(PolarDiagram):
     def _create_zero_table(self, ws_resolution, wa_resolution):
         rows, cols = len(wa_resolution), len(ws_resolution)
         self._boat_speeds = np.zeros((rows, cols))
-        self._ws_resolution = sorted(ws_resolution)
-        self._wa_resolution = sorted(wa_resolution)
+        self._ws_resolution = np.sort(ws_resolution)
+        self._wa_resolution = np.sort(wa_resolution)
 
     def __str__(self):
         table = ["  TWA / TWS"]
-- 
2.43.0


From 729bc988430404f63bafa476f1a3e3d743ec26a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 004/108] fix: normalise the wind angle before interpolating in
 a table

---
 hrosailing/polardiagram/_polardiagramtable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index f031b08..71255d9 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -284,7 +284,7 @@ class PolarDiagramTable(PolarDiagram):
         try:
             return self[ws, wa]
         except (TypeError, ValueError):
-            point = np.array([ws, wa])
+            point = np.array([ws, wa % 360])
             ws, wa = np.meshgrid(self.wind_speeds, self.wind_angles)
             points = np.column_stack(
                 (ws.ravel(), wa.ravel(), self.boat_speeds.ravel())
-- 
2.43.0


From 0e524e0195e394c5e208c67c03c6bc7c8eb0e1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 005/108] fix: do not normalise wind angles of tables in the
 caller's arrays

---
 hrosailing/polardiagram/_polardiagramtable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index 71255d9..d9fec26 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -750,7 +750,7 @@ class _Resolution_helper:
                 raise ValueError("`res` contains negative entries")
 
         if resolution_type == _Resolution_type.WIND_ANGLE:
-            res %= 360
+            res = res % 360
 
         return res
 
@@ -778,7 +778,7 @@ class _Resolution_helper:
                 raise ValueError("`wind` is negative")
 
         if resolution_type == _Resolution_type.WIND_ANGLE:
-            wind %= 360
+            wind = wind % 360
 
         return set(wind)
 
-- 
2.43.0


From 574c938a0df329a95f6c68efd12ad04bc7a1e4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 006/108] fix: assign changed table entries in the order of the
 winds given

---
 hrosailing/polardiagram/_polardiagramtable.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index d9fec26..786f0c5 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -324,10 +324,10 @@ class PolarDiagramTable(PolarDiagram):
         if not wind:
             raise ValueError("empty slice-list was passed")
 
-        if not wind.issubset(set(res)):
+        if not set(wind).issubset(set(res)):
             raise ValueError(f"{wind} is not contained in {res}")
 
-        return [i for i, w in enumerate(res) if w in wind]
+        return [i for w in wind for i, r in enumerate(res) if r == w]
 
     @property
     def wind_angles(self):
@@ -653,12 +653,7 @@ class PolarDiagramTable(PolarDiagram):
         if not correct_shape:
             raise ValueError("`new_bsps` has wrong shape")
 
-        mask = np.zeros(self.boat_speeds.shape, dtype=bool)
-        for i in wa:
-            for j in ws:
-                mask[i, j] = True
-
-        self._boat_speeds[mask] = new_bsps.flat
+        self._boat_speeds[np.ix_(wa, ws)] = new_bsps.reshape(len(wa), len(ws))
 
 
 class _Resolution_type(enum.Enum):
@@ -780,7 +775,8 @@ class _Resolution_helper:
         if resolution_type == _Resolution_type.WIND_ANGLE:
             wind = wind % 360
 
-        return set(wind)
+        # without duplicates, in the order given by the caller
+        return list(dict.fromkeys(wind))
 
 
 def _incompatible_shapes(bsps, ws_resolution, wa_resolution):
-- 
2.43.0


From 107dd36e21bc569341f7274fd41a5929765397bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 007/108] fix: do not normalise wind angles of added points in
 the caller's array

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index bf2fd19..a10549d 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -318,7 +318,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         if apparent_wind:
             new_pts = convert_apparent_wind_to_true(new_pts)
         else:
-            new_pts = np.asarray_chkfinite(new_pts)
+            new_pts = np.array(np.asarray_chkfinite(new_pts))
             if np.any((new_pts[:, 0] <= 0)):
                 raise ValueError("`new_pts` has non-positive wind speeds")
             new_pts[:, 1] %= 360
-- 
2.43.0


From 12800fbcd2a37305b092ca4b986dd46b5b57cb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 008/108] fix: interpolated slices of point clouds hold wind
 speeds, wind angles and boat speeds

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index a10549d..aac1293 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -119,7 +119,14 @@ class PolarDiagramPointcloud(PolarDiagram):
             default_wind_angles = np.linspace(0, 360, wa_resolution)
             return [
                 np.row_stack(
-                    self(ws_, wa, interpolator) for wa in default_wind_angles
+                    [
+                        [ws_] * len(default_wind_angles),
+                        default_wind_angles,
+                        [
+                            self(ws_, wa, interpolator)
+                            for wa in default_wind_angles
+                        ],
+                    ]
                 )
                 for ws_ in ws
             ]
-- 
2.43.0


From 528be9391759f3278eef52d6ad9672abd180c734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 009/108] fix: accept numpy integers as wind speed of a slice

---
 hrosailing/polardiagram/_basepolardiagram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_basepolardiagram.py b/hrosailing/polardiagram/_basepolardiagram.py
index 81f82d6..cee5798 100644
--- a/hrosailing/polardiagram/_basepolardiagram.py
+++ b/hrosailing/polardiagram/_basepolardiagram.py
@@ -100,7 +100,7 @@ class PolarDiagram(ABC):
     def _get_windspeeds(self, ws, n_steps):
         if ws is None:
             ws = self.default_slices
-        if isinstance(ws, (int, float)):
+        if isinstance(ws, (int, float, np.integer, np.floating)):
             return [ws]
         try:
             all_numbers = all(
-- 
2.43.0


From f7e2692d9db659719f6a765593e9ff36297a8813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 010/108] fix: do not normalise wind angles to convert in the
 caller's array

---
 hrosailing/core/computing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/computing.py b/hrosailing/core/computing.py
index 0a09ac7..2c7ab04 100644
--- a/hrosailing/core/computing.py
+++ b/hrosailing/core/computing.py
@@ -26,7 +26,7 @@ class _Wind(enum.Enum):
         if np.any((ws < 0)):
             raise TypeError("`wind` has negative wind speeds")
 
-        wa %= 360  # normalize wind angles
+        wa = wa % 360  # normalize wind angles
         wa_above_180 = wa > 180
         wa = np.deg2rad(wa)
 
-- 
2.43.0


From 9885677c7ee36f26c5604753a571fa221de9089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 011/108] fix: converted winds are finite when the wind
 vanishes and angles lie in [0, 360)

---
 hrosailing/core/computing.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/hrosailing/core/computing.py b/hrosailing/core/computing.py
index 2c7ab04..9180f80 100644
--- a/hrosailing/core/computing.py
+++ b/hrosailing/core/computing.py
@@ -38,14 +38,23 @@ class _Wind(enum.Enum):
         return np.column_stack((converted_ws, converted_wa, bsp))
 
     def _convert_wind_speed(self, ws, wa, bsp):
+        # account for floating point errors
         return np.sqrt(
-            np.square(ws)
-            + np.square(bsp)
-            + 2 * self.value * ws * bsp * np.cos(wa)
+            np.maximum(
+                np.square(ws)
+                + np.square(bsp)
+                + 2 * self.value * ws * bsp * np.cos(wa),
+                0,
+            )
         )
 
     def _convert_wind_angle(self, converted_ws, ws, wa, bsp, wa_above_180):
-        temp = (ws * np.cos(wa) + self.value * bsp) / converted_ws
+        # without wind there is no wind angle, use 0
+        no_wind = converted_ws == 0
+        temp = (ws * np.cos(wa) + self.value * bsp) / np.where(
+            no_wind, 1, converted_ws
+        )
+        temp[no_wind] = 1
 
         # account for floating point errors
         temp[temp > 1] = 1
@@ -57,7 +66,7 @@ class _Wind(enum.Enum):
         )
         converted_wa[~wa_above_180] = np.rad2deg(converted_wa[~wa_above_180])
 
-        return converted_wa
+        return converted_wa % 360
 
 
 def convert_apparent_wind_to_true(apparent_wind):
-- 
2.43.0


From 53c7ba7b4c1a589d9b53da7377f3c1e0c56d386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 012/108] fix: the default interpolation of point clouds is a
 mean, not 50 times the mean

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index aac1293..8446857 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -169,7 +169,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         self,
         ws,
         wa,
-        interpolator=ArithmeticMeanInterpolator(50),
+        interpolator=ArithmeticMeanInterpolator(params=(50,)),
         neighbourhood=Ball(radius=1),
     ):
         """Returns the value of the polar diagram at a given `ws-wa` point.
@@ -189,7 +189,7 @@ class PolarDiagramPointcloud(PolarDiagram):
             Interpolator subclass that determines the interpolation
             method used to determine the value at the `ws-wa` point.
 
-            Defaults to `ArithmeticMeanInterpolator(50)`.
+            Defaults to `ArithmeticMeanInterpolator(params=(50,))`.
 
         neighbourhood : Neighbourhood, optional
             Neighbourhood subclass used to determine the points in
-- 
2.43.0


From 8bb9114ceb92b097c979ca8ba86497ceda8f17bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 013/108] fix: symmetrise curves given in radians at 180
 degrees

---
 hrosailing/polardiagram/_polardiagramcurve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagramcurve.py b/hrosailing/polardiagram/_polardiagramcurve.py
index 351ac05..439f43e 100644
--- a/hrosailing/polardiagram/_polardiagramcurve.py
+++ b/hrosailing/polardiagram/_polardiagramcurve.py
@@ -206,9 +206,11 @@ class PolarDiagramCurve(PolarDiagram):
         by mirroring it at the 0° - 180° axis and returning a new instance.
         """
 
+        full_circle = 2 * np.pi if self.radians else 360
+
         def sym_func(ws, wa, *params):
             y = self._f(ws, wa, *params)
-            y_symm = self._f(ws, (360 - wa), *params)
+            y_symm = self._f(ws, (full_circle - wa), *params)
             return 0.5 * (y + y_symm)
 
         return PolarDiagramCurve(
-- 
2.43.0


From d829c7ba2ef282f374ee570d48eb147c19dd5f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 014/108] fix: symmetrising an empty point cloud returns a new
 instance

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index 8446857..e6f0c8b 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -288,7 +288,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         that might overwrite or live alongside old points.
         """
         if not self.points.size:
-            return self
+            return PolarDiagramPointcloud(self.points)
 
         below_180 = [wa for wa in self.wind_angles if wa <= 180]
         above_180 = [wa for wa in self.wind_angles if wa > 180]
-- 
2.43.0


From 91dfc57002ee0e033ad805e89a53e5f8bc42cef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 015/108] fix: evaluate slices and default points of curves
 given in radians at the listed angles

---
 hrosailing/polardiagram/_polardiagramcurve.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramcurve.py b/hrosailing/polardiagram/_polardiagramcurve.py
index 439f43e..c8eb192 100644
--- a/hrosailing/polardiagram/_polardiagramcurve.py
+++ b/hrosailing/polardiagram/_polardiagramcurve.py
@@ -73,7 +73,9 @@ class PolarDiagramCurve(PolarDiagram):
         wa = np.linspace(5, 355, 144)
         ws, wa = np.meshgrid(ws, wa)
         ws, wa = ws.ravel(), wa.ravel()
-        bsp = np.array([self(ws_, wa_) for ws_, wa_ in zip(ws, wa)])
+        bsp = np.array(
+            [self._eval_degrees(ws_, wa_) for ws_, wa_ in zip(ws, wa)]
+        )
         return np.column_stack([ws, wa, bsp])
 
     def get_slices(
@@ -109,10 +111,19 @@ class PolarDiagramCurve(PolarDiagram):
         """
         wa_ls = np.linspace(0, 360, wa_resolution)
         return [
-            np.row_stack([[ws_] * len(wa_ls), wa_ls, self(ws_, wa_ls)])
+            np.row_stack(
+                [
+                    [ws_] * len(wa_ls),
+                    wa_ls,
+                    self._eval_degrees(ws_, wa_ls),
+                ]
+            )
             for ws_ in ws
         ]
 
+    def _eval_degrees(self, ws, wa):
+        return self(ws, np.deg2rad(wa) if self.radians else wa)
+
     @staticmethod
     def _check_enough_params(func, params):
         try:
-- 
2.43.0


From 9bbaeaa64c97219c6ecd06cd8505d7b3e5db1c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 016/108] fix: hand out copies of the lists of sails and
 diagrams

---
 hrosailing/polardiagram/_polardiagrammultisails.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrammultisails.py b/hrosailing/polardiagram/_polardiagrammultisails.py
index 0196077..750d3cf 100644
--- a/hrosailing/polardiagram/_polardiagrammultisails.py
+++ b/hrosailing/polardiagram/_polardiagrammultisails.py
@@ -64,11 +64,11 @@ class PolarDiagramMultiSails(PolarDiagram):
 
     @property
     def sails(self):
-        return self._sails
+        return self._sails.copy()
 
     @property
     def diagrams(self):
-        return self._diagrams
+        return self._diagrams.copy()
 
     def __getitem__(self, item) -> PolarDiagramTable:
         """"""
-- 
2.43.0


From 67be9f028fc2ee1d77e38b7caa10b38448162231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 017/108] fix: ws_s_wa_gauss computes the documented function
 of nine parameters

---
 hrosailing/core/modelfunctions/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hrosailing/core/modelfunctions/__init__.py b/hrosailing/core/modelfunctions/__init__.py
index 4331cab..69b4db3 100644
--- a/hrosailing/core/modelfunctions/__init__.py
+++ b/hrosailing/core/modelfunctions/__init__.py
@@ -141,9 +141,9 @@ def ws_s_wa_gauss(ws, wa, *params):
     wa = np.asarray(wa)
 
     return (
-        s_shaped(ws, *params[0:4])
-        + gaussian_model(wa, *params[4:8])
-        + gaussian_model(360 - wa, *params[8:12])
+        s_shaped(ws, params[0], params[1], params[2], downturn=False)
+        + gaussian_model(wa, params[3], params[4], params[5])
+        + gaussian_model(360 - wa, params[6], params[7], params[8])
     )
 
 
-- 
2.43.0


From 3d6494cba2c64269133c41f17ba25110b797c8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 018/108] fix: measurement data does not share its columns with
 lists given or slices taken

---
 hrosailing/core/data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 9cb05b0..1ae59fe 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -172,7 +172,7 @@ class Data:
         else:
             # self.fill(self._max_len - len(data), [key])
             # self._data[key].extend(data)
-            self._data[key] = data
+            self._data[key] = list(data)
             self._types[key] = data_type
             self._max_len = max(self._max_len, len(self._data[key]))
 
@@ -504,7 +504,9 @@ class Data:
         """
 
         data = {
-            key: value for key, value in self._data.items() if key in slice_
+            key: list(value)
+            for key, value in self._data.items()
+            if key in slice_
         }
         types = {
             key: value for key, value in self._types.items() if key in slice_
-- 
2.43.0


From 49bed442c4cea5e6b44b873c151ce883f344836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 019/108] fix: iterating rows as tuples yields tuples

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 1ae59fe..127d2b5 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -106,7 +106,7 @@ class Data:
             if return_type is dict:
                 yield {key: self._data[key][i] for key in keys}
             elif return_type is tuple:
-                yield (self._data[key][i] for key in keys)
+                yield tuple(self._data[key][i] for key in keys)
             elif return_type is list:
                 yield [self._data[key][i] for key in keys]
             else:
-- 
2.43.0


From 668e54aa3c133ad3948a092db137f54b7d05ba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 020/108] fix: honour compress when updating by measurement
 data

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 127d2b5..f6ddfe7 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -191,7 +191,7 @@ class Data:
             `None`, the last entries will be replaced.
         """
         if isinstance(data_dict, Data):
-            self.update(data_dict.data)
+            self.update(data_dict.data, compress)
             return
         if not isinstance(data_dict, dict):
             raise TypeError("`data_dict` has to be of type `Data` or `dict`")
-- 
2.43.0


From 01681186a8471231fa65f6c313be896e7b0c5af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 021/108] fix: the number of rows follows deleting, filling and
 stripping of measurement data

---
 hrosailing/core/data.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index f6ddfe7..4081ae1 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -260,6 +260,7 @@ class Data:
             fill_len = max(0, (len_ - curr_len))
             self._data[key].extend([None] * fill_len)
             self._types[key] = self._get_type(self._data[key])
+        self._update_max_len()
 
     def filter_types(self, type_list):
         """
@@ -273,6 +274,7 @@ class Data:
             if self._types[key] not in type_list:
                 del self._data[key]
                 del self._types[key]
+        self._update_max_len()
 
     def rename(self, old_key, new_key):
         """
@@ -311,6 +313,7 @@ class Data:
         if isinstance(key, str):
             del self._data[key]
             del self._types[key]
+            self._update_max_len()
         if isinstance(key, int):
             self.delete([key])
         if isinstance(key, list):
@@ -324,7 +327,7 @@ class Data:
                     k: [v for i, v in enumerate(value) if i not in key]
                     for k, value in self._data.items()
                 }
-                self._max_len -= len(key)
+                self._update_max_len()
 
     def strip(self, mode="all"):
         """
@@ -344,25 +347,19 @@ class Data:
                 for key, value in self._data.items()
                 if not all(v is None for v in value)
             }
+            self._types = {key: self._types[key] for key in self._data}
+            self._update_max_len()
         elif mode == "rows":
-            end_leading_nones = 0  # first index AFTER leading None rows
-            start_tailing_nones = (
-                self._max_len - 1
-            )  # first index BEFORE tailing None rows
-            while all(
-                value[end_leading_nones] is None
-                for key, value in self._data.items()
-            ):
-                end_leading_nones += 1
-            while all(
-                value[start_tailing_nones] is None
-                for key, value in self._data.items()
-            ):
-                start_tailing_nones -= 1
+            set_rows = [
+                i
+                for i in range(self._max_len)
+                if any(value[i] is not None for value in self._data.values())
+            ]
+            start, end = (set_rows[0], set_rows[-1] + 1) if set_rows else (0, 0)
             self._data = {
-                key: value[end_leading_nones : start_tailing_nones + 1]
-                for key, value in self._data.items()
+                key: value[start:end] for key, value in self._data.items()
             }
+            self._update_max_len()
         elif mode == "all":
             self.strip("cols")
             self.strip("rows")
@@ -426,6 +423,11 @@ class Data:
                 if succes:
                     self._types[key] = float
 
+    def _update_max_len(self):
+        self._max_len = max(
+            (len(value) for value in self._data.values()), default=0
+        )
+
     @staticmethod
     def _get_type(data):
         curr_type = None
-- 
2.43.0


From 8ed85095be160e16e966259c70633d7336267745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 022/108] fix: standard format of columns without a name

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 4081ae1..233cceb 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -380,7 +380,7 @@ class Data:
                 lkey = lkey.replace(sep, " ")
             lkey = lkey.strip()
             # remove plural
-            stripped_lkey = lkey if lkey[-1] != "s" else lkey[:-1]
+            stripped_lkey = lkey[:-1] if lkey.endswith("s") else lkey
             if lkey in KEYSYNONYMS:
                 return KEYSYNONYMS[lkey]
             if stripped_lkey in KEYSYNONYMS:
-- 
2.43.0


From 67e12a95c91f981ac4b7e9a9866a78918eee344c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 023/108] fix: do not append date and time to an existing
 datetime column

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 233cceb..0660d6e 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -399,7 +399,7 @@ class Data:
                 new_key = f"{standard_key}(Control value {i})"
             self.rename(key, new_key)
 
-        if "time" in self and "date" in self:
+        if "time" in self and "date" in self and "datetime" not in self:
 
             def combine(date, time):
                 if date is None or time is None:
-- 
2.43.0


From 378ca4823672586ef28a4444ccd9f70fbe4e32eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 024/108] fix: scalar weights for measurement data

---
 hrosailing/core/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 0660d6e..22c894f 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -624,6 +624,8 @@ class WeightedPoints:
         if isinstance(weights, (float, int)):
             if isinstance(data, dict):
                 length = len(list(data.values())[0])
+            elif isinstance(data, Data):
+                length = data.n_rows
             else:
                 length = len(data)
             self.weights = weights * np.ones(length)
-- 
2.43.0


From 705f19190fbdd0f7b5265a004ff641c16937df85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 025/108] fix: standard format casts all numpy numbers to float

---
 hrosailing/core/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 22c894f..b540f35 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -418,7 +418,10 @@ class Data:
 
         # ensure floats
         for key in self.keys():
-            if self._types[key] in (int, str, Decimal, np.float_):
+            if self._types[key] in (int, str, Decimal) or (
+                self._types[key] is not None
+                and issubclass(self._types[key], np.number)
+            ):
                 succes, self._data[key] = _try_call_to_float(self._data[key])
                 if succes:
                     self._types[key] = float
-- 
2.43.0


From 5532d23c346ce6f7a2029272d88f96b2a41d36b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 026/108] fix: RemoveOnlyImputator reports the number of
 removed rows

---
 hrosailing/processing/imputator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hrosailing/processing/imputator.py b/hrosailing/processing/imputator.py
index 6e779a4..b91ec90 100644
--- a/hrosailing/processing/imputator.py
+++ b/hrosailing/processing/imputator.py
@@ -53,7 +53,6 @@ class RemoveOnlyImputator(Imputator):
         --------
         `Imputator.impute`
         """
-        n_rows = data.n_rows
         remove_rows = [
             idx
             for idx, row in enumerate(data.rows(return_type=list))
@@ -61,7 +60,7 @@ class RemoveOnlyImputator(Imputator):
         ]
         data.delete(remove_rows)
 
-        self.set_statistics(0, n_rows - len(remove_rows), 0, data)
+        self.set_statistics(0, len(remove_rows), 0, data)
 
         return data
 
-- 
2.43.0


From 8b0a0ab18e5fe02734a99f9e75a675bbe7503657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 027/108] fix: FillLocalImputator interpolates time stamps
 after a large gap, too

---
 hrosailing/processing/imputator.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hrosailing/processing/imputator.py b/hrosailing/processing/imputator.py
index b91ec90..4985d0e 100644
--- a/hrosailing/processing/imputator.py
+++ b/hrosailing/processing/imputator.py
@@ -191,11 +191,10 @@ class FillLocalImputator(Imputator):
         for i, dt in enumerate(data["datetime"]):
             if dt is None:
                 continue
-            if last_dt is None:
-                pass
-            elif abs(dt - last_dt) > self._max_time_diff:
-                continue
-            else:
+            if (
+                last_dt is not None
+                and abs(dt - last_dt) <= self._max_time_diff
+            ):
                 # linear approximation of time in between
                 for j in range(last_i + 1, i):
                     mu = (j - last_i) / (i - last_i)
-- 
2.43.0


From 3b81f701f27977cbc7e11942a194f341ac4210c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 028/108] fix: AffineSmoother rejects every time series that is
 not chronological

---
 hrosailing/processing/smoother.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/smoother.py b/hrosailing/processing/smoother.py
index 5034f1c..f7ce860 100644
--- a/hrosailing/processing/smoother.py
+++ b/hrosailing/processing/smoother.py
@@ -90,7 +90,12 @@ class AffineSmoother(Smoother):
         --------
         `Smoother.smooth`
         """
-        if any(time < data["datetime"][0] for time in data["datetime"]):
+        if any(
+            time_after < time
+            for time, time_after in zip(
+                data["datetime"], data["datetime"][1:]
+            )
+        ):
             raise ValueError(
                 "AffineSmoother only supports chronologically ordered time"
                 " series."
-- 
2.43.0


From dafa245f89b36d3f1cba28525b7403d625e66118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 029/108] fix: AffineSmoother treats a differing last value as
 an interval of its own

---
 hrosailing/processing/smoother.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/hrosailing/processing/smoother.py b/hrosailing/processing/smoother.py
index f7ce860..1ec85cc 100644
--- a/hrosailing/processing/smoother.py
+++ b/hrosailing/processing/smoother.py
@@ -129,13 +129,7 @@ class AffineSmoother(Smoother):
         y_lb = ys[0]
         interval_bounds_x = []
         interval_bounds_y = []
-        for i, (x, x_after, y, y_after) in enumerate(
-            zip(xs, xs[1:], ys, ys[1:])
-        ):
-            if i == len(ys) - 2:
-                interval_bounds_x.append((x_lb, x_after))
-                interval_bounds_y.append(y)
-                break
+        for x, x_after, y, y_after in zip(xs, xs[1:], ys, ys[1:]):
             if y == y_after:
                 continue
             interval_bounds_x.extend([(x_lb, 1 / 2 * (x + x_after))])
@@ -143,6 +137,9 @@ class AffineSmoother(Smoother):
             x_lb = 1 / 2 * (x + x_after)
             y_lb = y_after
 
+        interval_bounds_x.append((x_lb, xs[-1]))
+        interval_bounds_y.append(y_lb)
+
         return interval_bounds_x, interval_bounds_y
 
     def _approximate_intervals(self, interval_bounds_x, interval_bounds_y, ys):
-- 
2.43.0


From a23865964d8019c92625998359ee4096030e64ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 030/108] fix: QuantileFilter reports statistics for empty
 weights

---
 hrosailing/processing/filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/filter.py b/hrosailing/processing/filter.py
index 4e0a549..1550ae6 100644
--- a/hrosailing/processing/filter.py
+++ b/hrosailing/processing/filter.py
@@ -92,8 +92,9 @@ class QuantileFilter(Filter):
         `Filter.filter`
         """
         if len(wts) == 0:
-            return []
-        filtered_points = self._calculate_quantile(wts)
+            filtered_points = np.array([], dtype=bool)
+        else:
+            filtered_points = self._calculate_quantile(wts)
 
         self.set_statistics(filtered_points)
 
-- 
2.43.0


From be9aabe8b489c2214de7288690f315c0561ef00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 031/108] fix: combined weighers can weigh and report
 statistics of their own weights

---
 hrosailing/processing/weigher.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 7487dd0..5835e2b 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -169,9 +169,9 @@ class _UnaryMapWeigher(Weigher):
         self._map = map_
 
     def weigh(self, points) -> (np.ndarray, dict):
-        weights, _ = self._sub_weigher.weigh(points)
+        weights = self._map(np.asarray(self._sub_weigher.weigh(points)))
         self.set_statistics(weights)
-        return self._map(weights)
+        return weights
 
 
 class _BinaryMapWeigher(Weigher):
@@ -182,8 +182,8 @@ class _BinaryMapWeigher(Weigher):
         self._map = map_
 
     def weigh(self, points) -> (np.ndarray, dict):
-        weights, _ = self._sub_weigher.weigh(points)
-        other_weights, _ = self._other_sub_weigher.weigh(points)
+        weights = np.asarray(self._sub_weigher.weigh(points))
+        other_weights = np.asarray(self._other_sub_weigher.weigh(points))
         new_weights = self._map(weights, other_weights)
         self.set_statistics(new_weights)
         return new_weights
-- 
2.43.0


From f999d6ae0d803fcab3f5f5abe2b4c2a126a2d0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 032/108] fix: subtract numbers from weighers, divide numbers
 by weighers and accept arrays on the left

---
 hrosailing/processing/weigher.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 5835e2b..87fdf54 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -28,6 +28,9 @@ class Weigher(ComponentWithStatistics, ABC):
     Basic arithmetic operations may be performed among weighers.
     """
 
+    # let `array * weigher` etc. be handled by the weigher
+    __array_ufunc__ = None
+
     @abstractmethod
     def weigh(self, points) -> (np.ndarray, dict):
         """This method should be used to determine a weight for each point
@@ -79,11 +82,11 @@ class Weigher(ComponentWithStatistics, ABC):
     def __sub__(self, other):
         if isinstance(other, Weigher):
             return _BinaryMapWeigher(self, other, lambda x, y: x - y)
-        if isinstance(other, np.ndarray):
+        if isinstance(other, (int, float, np.ndarray)):
             return _UnaryMapWeigher(self, lambda x: x - other)
         raise TypeError(
             f"Invalid type for subtraction with Weigher."
-            f"Expected Weigher or np.ndarray. Got {type(other)} instead"
+            f"Expected Weigher, int, float or np.ndarray. Got {type(other)} instead"
         )
 
     def __neg__(self):
@@ -103,11 +106,11 @@ class Weigher(ComponentWithStatistics, ABC):
     def __rtruediv__(self, other):
         if isinstance(other, Weigher):
             return _BinaryMapWeigher(self, other, lambda x, y: y / x)
-        if isinstance(other, np.ndarray):
+        if isinstance(other, (int, float, np.ndarray)):
             return _UnaryMapWeigher(self, lambda x: other / x)
         raise TypeError(
             f"Invalid type for division with Weigher."
-            f"Expected Weigher or np.ndarray. Got {type(other)} instead"
+            f"Expected Weigher, int, float or np.ndarray. Got {type(other)} instead"
         )
 
     def __pow__(self, power, modulo=None):
-- 
2.43.0


From 2ca4a0546d99427c310a324223986a740f2bc3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 033/108] fix: weighing does not change the list of dimensions
 given

---
 hrosailing/processing/weigher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 87fdf54..9fc3ec5 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -563,10 +563,10 @@ def _set_points_from_data(data, attributes, reduce=True):
     if reduce:
         if "BSP" in attributes:
             bsp = data["BSP"]
-            attributes.remove("BSP")
+            attributes = [key for key in attributes if key != "BSP"]
         elif "SOG" in attributes:
             bsp = data["SOG"]
-            attributes.remove("SOG")
+            attributes = [key for key in attributes if key != "SOG"]
         else:
             raise ValueError(
                 "Data has to support one of the keys 'BSP' or 'SOG'"
-- 
2.43.0


From f613b580718ec73ec9f28eb97c653ae4cdb23a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 034/108] fix: weighers use the attributes in the order they
 were asked for

---
 hrosailing/processing/weigher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 9fc3ec5..f3d7761 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -576,7 +576,10 @@ def _set_points_from_data(data, attributes, reduce=True):
         data = data_dict_to_numpy(data, attributes)
 
     if isinstance(data, Data):
-        attributes, data = data[attributes].numerical
+        keys, data = data[attributes].numerical
+        attributes = [key for key in attributes if key in keys]
+        if attributes:
+            data = data[:, [keys.index(key) for key in attributes]]
 
     if reduce:
         return attributes, data, np.asarray(bsp)
-- 
2.43.0


From 5e92a5b628f3876dd53e4008794284e6864ccc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 035/108] fix: weighers detect dimensions and norm anew for
 every data set

---
 hrosailing/processing/weigher.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index f3d7761..df3dc40 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -319,9 +319,10 @@ class CylindricMeanWeigher(Weigher):
         return np.abs(mean - bsp) / std
 
     def _determine_points_in_cylinder(self, point, points, bsps, dimensions):
-        if self._norm is None:
-            self._norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
-        in_cylinder = self._norm(points - point) <= self._radius
+        norm = self._norm
+        if norm is None:
+            norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
+        in_cylinder = norm(points - point) <= self._radius
         return bsps[in_cylinder]
 
 
@@ -395,8 +396,9 @@ class CylindricMemberWeigher(Weigher):
         self._radius = radius
         self._length = length
 
+        self._detect_norm = norm is None
         if norm is None:
-            self._norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
+            self._norm = hrosailing_standard_scaled_euclidean_norm()
         else:
             self._norm = norm
         self._dimensions = dimensions
@@ -430,9 +432,16 @@ class CylindricMemberWeigher(Weigher):
         if isinstance(points, Data) and points.n_rows == 0:
             return []
 
-        self._dimensions, points = _set_points_from_data(
+        is_data = isinstance(points, Data)
+        dimensions, points = _set_points_from_data(
             points, self._dimensions, reduce=False
         )
+        if self._detect_norm and is_data:
+            self._norm = hrosailing_standard_scaled_euclidean_norm(
+                dimensions[:-1]
+            )
+        elif self._detect_norm:
+            self._norm = hrosailing_standard_scaled_euclidean_norm()
 
         weights = [self._calculate_weight(point, points) for point in points]
         weights = np.array(weights)
-- 
2.43.0


From 22dde2b9fdd136126926ee0c8770c5b07d2ca644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 036/108] fix: FluctuationWeigher returns an array like the
 other weighers

---
 hrosailing/processing/weigher.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index df3dc40..3477122 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -553,6 +553,7 @@ class FluctuationWeigher(Weigher):
                 else:
                     weights[curr_idx] *= (ub - std) / ub
 
+        weights = np.array(weights)
         self.set_statistics(weights)
 
         return weights
-- 
2.43.0


From 1aff0d61cbd39282a251b6c4ac32f4abdb0ddbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 037/108] fix: fuzzy and/or of every entry of an array, not
 only of the first

---
 hrosailing/processing/weigher.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 3477122..2b04458 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -677,8 +677,7 @@ class FuzzyBool:
         """
 
         def eval_fun(x):
-            concat = np.row_stack([one(x), other(x)])
-            return np.min(concat, axis=0)[0]
+            return np.minimum(one(x), other(x))
 
         return cls(eval_fun)
 
@@ -699,8 +698,7 @@ class FuzzyBool:
         """
 
         def eval_fun(x):
-            concat = np.row_stack([one(x), other(x)])
-            return np.max(concat, axis=0)[0]
+            return np.maximum(one(x), other(x))
 
         return cls(eval_fun)
 
-- 
2.43.0


From 330c01044264ae4fcceea0e4d9f34a0e1a30e9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 038/108] fix: x(s) == a uses the sharpness s on both sides

---
 hrosailing/processing/weigher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 2b04458..c99a308 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -849,7 +849,10 @@ class FuzzyVariable:
         return self < other
 
     def __eq__(self, other):
-        new = FuzzyBool.fuzzy_and(self < other, self > other)
+        sharpness = self.sharpness
+        new = FuzzyBool.fuzzy_and(
+            self(sharpness) < other, self(sharpness) > other
+        )
         new.repr = f"{self} == {other}"
         return new
 
-- 
2.43.0


From be6744e732efc158f9c5f589d1fd27680b5eec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 039/108] fix: equal boat speeds do not deviate from their mean
 by rounding errors

---
 hrosailing/processing/weigher.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index c99a308..3e3f7bb 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -312,11 +312,14 @@ class CylindricMeanWeigher(Weigher):
         points_in_cylinder = self._determine_points_in_cylinder(
             point, points, bsps, dimensions
         )
+        # relative to `bsp`, so that equal boat speeds do not deviate by
+        # rounding errors
+        deviations = points_in_cylinder - bsp
 
-        std = _standard_deviation_of(points_in_cylinder)
-        mean = _mean_of(points_in_cylinder)
+        std = _standard_deviation_of(deviations)
+        mean = _mean_of(deviations)
 
-        return np.abs(mean - bsp) / std
+        return np.abs(mean) / std
 
     def _determine_points_in_cylinder(self, point, points, bsps, dimensions):
         norm = self._norm
-- 
2.43.0


From 416ebde43d6c714b94ecd994ea1c91bb75702ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 040/108] fix: neighbourhoods give an empty mask for no points
 instead of True

---
 hrosailing/processing/neighbourhood.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hrosailing/processing/neighbourhood.py b/hrosailing/processing/neighbourhood.py
index 97f63ac..f262c87 100644
--- a/hrosailing/processing/neighbourhood.py
+++ b/hrosailing/processing/neighbourhood.py
@@ -169,7 +169,7 @@ class ScalingBall(Neighbourhood):
         pts = np.asarray(pts)
 
         if len(pts) == 0:
-            return True
+            return np.zeros(0, dtype=bool)
 
         dist = self._norm(pts)
         self._radius = sorted(dist)[self._min_pts - 1]
@@ -260,7 +260,7 @@ class Ellipsoid(Neighbourhood):
         pts = np.asarray(pts)
 
         if len(pts) == 0:
-            return True
+            return np.zeros(0, dtype=bool)
 
         pts = self._transform_ellipsoid_to_ball(pts)
 
@@ -322,8 +322,8 @@ class Cuboid(Neighbourhood):
         """
         pts = np.atleast_2d(np.asarray(pts))
 
-        if pts.shape[1] == 0:
-            return True
+        if pts.size == 0:
+            return np.zeros(0, dtype=bool)
 
         mask = (
             np.ones((pts.shape[0],), dtype=bool)
@@ -403,7 +403,7 @@ class Polytope(Neighbourhood):
         pts = np.asarray(pts)
 
         if len(pts) == 0:
-            return True
+            return np.zeros(0, dtype=bool)
 
         mask = np.ones((pts.shape[0],), dtype=bool)
         for ineq, bound in zip(self._mat, self._b):
-- 
2.43.0


From baf0bbf67833737eec656e9a8157466dea9f35e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 041/108] fix: ScalingBall contains all points if there are
 fewer than it should

---
 hrosailing/processing/neighbourhood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/neighbourhood.py b/hrosailing/processing/neighbourhood.py
index f262c87..a1a2ab4 100644
--- a/hrosailing/processing/neighbourhood.py
+++ b/hrosailing/processing/neighbourhood.py
@@ -172,7 +172,7 @@ class ScalingBall(Neighbourhood):
             return np.zeros(0, dtype=bool)
 
         dist = self._norm(pts)
-        self._radius = sorted(dist)[self._min_pts - 1]
+        self._radius = sorted(dist)[min(self._min_pts, len(pts)) - 1]
 
         return dist <= self._radius
 
-- 
2.43.0


From 25865637f8dd75ae4830a1d299e5e35a92f54dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 042/108] fix: equally distant points are averaged instead of
 yielding NaN

---
 hrosailing/processing/interpolator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index ecdd25d..049983a 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -439,6 +439,10 @@ def _set_weights(pts, dist):
         elif r / 3 < d <= r:
             wts[i] = 27 / (4 * r) * np.square(d / r - 1)
 
+    if not np.any(wts):
+        # all points are equally far away
+        return np.ones(pts.shape[0])
+
     return wts
 
 
-- 
2.43.0


From 605d6039879671ca1e35275ccc0c591e6048449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 043/108] fix: the weights of far away points do not all vanish
 numerically

---
 hrosailing/processing/interpolator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index 049983a..71e69ff 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -136,7 +136,10 @@ class IDWInterpolator(Interpolator):
 
 def _gauss_potential(distances, weights, *params):
     alpha = params[0]
-    return np.exp(-alpha * weights * distances)
+    exponents = alpha * weights * distances
+    # a common factor does not change the mean, but prevents all weights
+    # from vanishing numerically if no point is near
+    return np.exp(np.min(exponents) - exponents)
 
 
 class ArithmeticMeanInterpolator(Interpolator):
-- 
2.43.0


From 3e4586b2b4f21eab8d2fe2eccb604b452f0a42d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 044/108] fix: inverse distances do not overflow close to a
 measured point

---
 hrosailing/processing/interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index 71e69ff..6067d0c 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -128,7 +128,7 @@ class IDWInterpolator(Interpolator):
             mask = wts == 0
             return pts[mask][0, 2]
 
-        wts = 1 / np.power(wts, self._p)
+        wts = np.power(np.min(wts) / wts, self._p)
         wts /= np.sum(wts)
 
         return wts @ pts[:, 2]
@@ -316,7 +316,7 @@ class ImprovedIDWInterpolator(Interpolator):
             return pts[mask][0, 2]
 
         wts = _set_weights(pts, dist)
-        wts = np.square(wts)
+        wts = np.square(wts / np.max(wts))
         wts /= np.sum(wts)
 
         return wts @ pts[:, 2]
-- 
2.43.0


From f0d5987cfb7c509065a630fce19e3eca1570a12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 045/108] fix: ShepardInterpolator uses the cosine of the angle
 between the directions of two points

---
 hrosailing/processing/interpolator.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index 6067d0c..df15125 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -17,7 +17,7 @@ from typing import Callable
 
 import numpy as np
 
-from hrosailing.core.computing import scaled_euclidean_norm
+from hrosailing.core.computing import euclidean_norm, scaled_euclidean_norm
 from hrosailing.core.exceptions import (
     BilinearInterpolatorNoGridException,
     BilinearInterpolatorOutsideGridException,
@@ -410,7 +410,7 @@ class ShepardInterpolator(Interpolator):
             return pts[mask][0, 2]
 
         wts = _set_weights(pts, dist)
-        wts = _include_direction(pts, grid_pt, dist, wts)
+        wts = _include_direction(pts, grid_pt, wts)
         zdelta = _determine_slope(
             pts,
             grid_pt,
@@ -449,17 +449,14 @@ def _set_weights(pts, dist):
     return wts
 
 
-def _include_direction(pts, grid_pt, dist, wts):
+def _include_direction(pts, grid_pt, wts):
     """"""
     t = np.zeros(pts.shape[0])
+    directions = grid_pt - pts[:, :2]
+    directions = directions / euclidean_norm(directions)[:, np.newaxis]
 
-    for i, pt in enumerate(pts):
-        cosine = (grid_pt[0] - pt[0]) * (
-            grid_pt[0] - np.delete(pts, i, axis=0)[:, 0]
-        ) + (grid_pt[1] - pt[1]) * (
-            grid_pt[1] - np.delete(pts, i, axis=0)[:, 0]
-        )
-        cosine /= dist[i] * np.delete(dist, i)
+    for i, direction in enumerate(directions):
+        cosine = np.delete(directions, i, axis=0) @ direction
         t[i] = np.sum(np.delete(wts, i) * (1 - cosine))
         t[i] /= np.sum(wts)
 
-- 
2.43.0


From dd9ccf3039a7d6311ccc664ec26745d215b9579c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 046/108] fix: ShepardInterpolator measures slopes in the plane
 and copes with constant, repeated and isolated points

---
 hrosailing/processing/interpolator.py | 56 +++++++++++----------------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index df15125..96a5ece 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -412,13 +412,7 @@ class ShepardInterpolator(Interpolator):
         wts = _set_weights(pts, dist)
         wts = _include_direction(pts, grid_pt, wts)
         zdelta = _determine_slope(
-            pts,
-            grid_pt,
-            dist,
-            wts,
-            self._neighbourhood,
-            self._norm,
-            self._slope,
+            pts, grid_pt, wts, self._neighbourhood, self._slope
         )
 
         # reduce computational errors
@@ -463,41 +457,35 @@ def _include_direction(pts, grid_pt, wts):
     return np.square(wts) * (1 + t)
 
 
-def _determine_slope(pts, grid_pt, dist, wts, nhood, norm, slope):
+def _determine_slope(pts, grid_pt, wts, nhood, slope):
     """"""
     xderiv = np.zeros(pts.shape[0])
     yderiv = np.zeros(pts.shape[0])
 
     for i, pt in enumerate(pts):
-        pts_i = np.delete(pts, i, axis=0)
-        mask = nhood.is_contained_in(pts_i - pt)
-        pts_i = pts_i[mask]
-        dist_i = norm(pts_i - pt)
+        diff = np.delete(pts, i, axis=0) - pt
+        dist_i = euclidean_norm(diff[:, :2])
+        # points at the same position do not have a slope between them
+        mask = nhood.is_contained_in(diff[:, :2]) & (dist_i > 0)
         wts_i = np.delete(wts, i)[mask]
-        xderiv[i] = np.sum(
-            wts_i
-            * (pts_i[:, 2] - pt[2])
-            * (pts_i[:, 0] - pt[0])
-            / np.square(dist_i)
-        )
-        xderiv[i] /= np.sum(wts_i)
-        yderiv[i] = np.sum(
-            wts_i
-            * (pts_i[:, 2] - pt[2])
-            * (pts_i[:, 1] - pt[1])
-            / np.square(dist_i)
-        )
-        yderiv[i] /= np.sum(wts_i)
+        if not np.any(wts_i):
+            continue
 
-    dim_of_dist = (
-        slope
-        * (np.max(pts[:, 2]) - np.min(pts[:, 2]))
-        / np.sqrt(np.max(np.square(xderiv) + np.square(yderiv)))
-    )
+        slopes = diff[mask, 2] / np.square(dist_i[mask])
+        wts_i = wts_i / np.sum(wts_i)
+        xderiv[i] = np.sum(wts_i * slopes * diff[mask, 0])
+        yderiv[i] = np.sum(wts_i * slopes * diff[mask, 1])
 
-    return (
-        xderiv * (grid_pt[0] - pts[:, 0]) + yderiv * (grid_pt[1] - pts[:, 1])
-    ) * (dim_of_dist / (dim_of_dist + dist))
+    max_slope = np.sqrt(np.max(np.square(xderiv) + np.square(yderiv)))
+    if max_slope == 0:
+        return np.zeros(pts.shape[0])
+
+    dim_of_dist = slope * (np.max(pts[:, 2]) - np.min(pts[:, 2])) / max_slope
+    diff = grid_pt - pts[:, :2]
+
+    return (xderiv * diff[:, 0] + yderiv * diff[:, 1]) * (
+        dim_of_dist / (dim_of_dist + euclidean_norm(diff))
+    )
 
 
 class BilinearGridInterpolator(Interpolator):
-- 
2.43.0


From 92e9f1dccd2b46b53db3a2a2a2b0a1821b65a130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 047/108] fix: the mask of a ball is boolean for no points, too

---
 hrosailing/processing/neighbourhood.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/neighbourhood.py b/hrosailing/processing/neighbourhood.py
index a1a2ab4..9447809 100644
--- a/hrosailing/processing/neighbourhood.py
+++ b/hrosailing/processing/neighbourhood.py
@@ -99,7 +99,9 @@ class Ball(Neighbourhood):
         try:
             return self._norm(pts) <= self._radius
         except (ValueError, IndexError):
-            return np.asarray([self._norm(pt) <= self._radius for pt in pts])
+            return np.asarray(
+                [self._norm(pt) <= self._radius for pt in pts], dtype=bool
+            )
 
 
 class ScalingBall(Neighbourhood):
-- 
2.43.0


From 9ae6c489bab5014cc12bf60990d039255019816a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 048/108] fix: the precision of the smallest enclosing circle
 is relative to the size of the data

---
 hrosailing/processing/sampler.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hrosailing/processing/sampler.py b/hrosailing/processing/sampler.py
index 86a3b32..3200457 100644
--- a/hrosailing/processing/sampler.py
+++ b/hrosailing/processing/sampler.py
@@ -275,9 +275,11 @@ def _sample_generator(base_set, midpoint, ineqs):
     return generate_sample
 
 
-def _make_circle(pts, eps=0.0001):
+def _make_circle(pts, eps=1e-6):
     """"""
     pts = pts.copy()
+    # precision relative to the size of the data
+    eps *= np.max(np.ptp(pts, axis=0))
     np.random.shuffle(pts)
     k = []  # list of necessary boundary points
     circle = _small_circle(pts[k])
@@ -310,7 +312,7 @@ def _make_circle(pts, eps=0.0001):
 def _is_in_circle(p, circle, eps):
     """"""
     mp, r = circle
-    return np.linalg.norm(p - mp) < r + eps
+    return np.linalg.norm(p - mp) <= r + eps
 
 
 def _small_circle(pts):
@@ -326,12 +328,15 @@ def _small_circle(pts):
         mp = 1 / 2 * (p1 + p2)
         r = 1 / 2 * np.linalg.norm(p1 - p2)
         return mp, r
-    circle_m = -np.column_stack(pts).T
+    # relative to one of the points for precision
+    rel_pts = pts - pts[0]
+    circle_m = -np.column_stack(rel_pts).T
     circle_m = np.column_stack([np.ones(3), circle_m])
-    circle_b = np.array([-np.linalg.norm(p) ** 2 for p in pts])
+    circle_b = np.array([-np.linalg.norm(p) ** 2 for p in rel_pts])
     try:
         a, b, c = np.linalg.inv(circle_m) @ circle_b
-        return np.array([b / 2, c / 2]), np.sqrt(b**2 / 4 + c**2 / 4 - a)
+        mp = pts[0] + np.array([b / 2, c / 2])
+        return mp, np.sqrt(b**2 / 4 + c**2 / 4 - a)
     except np.linalg.LinAlgError:
         pass
 
-- 
2.43.0


From edbdbb4617f0bbb602093938c8fe3c17eba45e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 049/108] fix: spiral samplers only use the wind of points with
 boat speeds, like the uniform one

---
 hrosailing/processing/sampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/sampler.py b/hrosailing/processing/sampler.py
index 3200457..83c573d 100644
--- a/hrosailing/processing/sampler.py
+++ b/hrosailing/processing/sampler.py
@@ -140,6 +140,8 @@ class FibonacciSampler(Sampler):
         ----------
         `Sampler.sample`
         """
+        pts = pts[:, :2]
+
         # calculate smallest circle containing pts
         midpoint, r = _make_circle(pts)
 
@@ -210,9 +212,11 @@ class ArchimedeanSampler(Sampler):
         `Sampler.sample`
         """
 
-        if len(pts) < 2:
+        if len(pts) < 3:
             raise ValueError("`pts` needs to contain at least 3 points")
 
+        pts = pts[:, :2]
+
         # calculate enclosing circle
         midpoint, r = _make_circle(pts)
 
-- 
2.43.0


From 470ea29bd40696573946852d0ac9c195e41c3cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 050/108] fix: the default initial values of
 LeastSquareRegressor do not count wind speed and angle

---
 hrosailing/processing/regressor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/regressor.py b/hrosailing/processing/regressor.py
index 8964949..19b507d 100644
--- a/hrosailing/processing/regressor.py
+++ b/hrosailing/processing/regressor.py
@@ -184,7 +184,8 @@ class LeastSquareRegressor(Regressor):
         if init_vals is None and len(args) < 3:
             init_vals = _determine_params(fitting_func)
         elif init_vals is None:
-            init_vals = tuple(1 for _ in range(len(args)))
+            # all arguments but wind speed and wind angle are parameters
+            init_vals = tuple(1 for _ in range(len(args) - 2))
 
         self._fitting_func = fitting_func
         self._init_vals = init_vals
-- 
2.43.0


From 9ae91c80ae3f9e16a4f8ba033409c2824321ede1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 051/108] fix: spirals have enough points to fill hulls with
 the midpoint of the circle on their border

---
 hrosailing/processing/sampler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/sampler.py b/hrosailing/processing/sampler.py
index 83c573d..9b09d75 100644
--- a/hrosailing/processing/sampler.py
+++ b/hrosailing/processing/sampler.py
@@ -150,7 +150,9 @@ class FibonacciSampler(Sampler):
         ch = ConvexHull(pts)
         vol = ch.volume
         ineqs = ch.equations
-        ub_n_samples = int(np.pi * r**2 * self._n_samples / vol) + 10
+        # (twice as many points as the circle should hold, since its midpoint
+        # may lie on the border of the hull)
+        ub_n_samples = int(2 * np.pi * r**2 * self._n_samples / vol) + 10
 
         # create big fibonacci spiral
         golden_ratio = (1 + np.sqrt(5)) / 2
@@ -225,7 +227,9 @@ class ArchimedeanSampler(Sampler):
         vol = ch.volume
         ineqs = ch.equations
 
-        ub_n_samples = int(np.pi * r**2 * self._n_samples / vol) + 10
+        # (twice as many points as the circle should hold, since its midpoint
+        # may lie on the border of the hull)
+        ub_n_samples = int(2 * np.pi * r**2 * self._n_samples / vol) + 10
 
         # estimate upper bounds for spiral points needed
         # and simultaneously create arc values
-- 
2.43.0


From df769a8c258ff3dcbd166134a9c3909670ae79b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 052/108] fix: WindAngleCorrectingInfluenceModel corrects
 single wind angles, too

---
 hrosailing/models/influencemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/influencemodel.py b/hrosailing/models/influencemodel.py
index d0d07ff..1add038 100644
--- a/hrosailing/models/influencemodel.py
+++ b/hrosailing/models/influencemodel.py
@@ -192,7 +192,7 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
             speed = [pd(ws, (wa + self._wa_shift) % 360) for ws, wa in wind]
         else:
             ws, wa = influence_data["TWS"], influence_data["TWA"]
-            speed = pd(ws, wa)
+            speed = pd(ws, (wa + self._wa_shift) % 360)
         return speed
 
     def fit(self, training_data):
-- 
2.43.0


From ac366f6cd602efeda7ea7b890994232de418f1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 053/108] fix: WindAngleCorrectingInfluenceModel measures the
 density of wind angles on the circle

---
 hrosailing/models/influencemodel.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/hrosailing/models/influencemodel.py b/hrosailing/models/influencemodel.py
index 1add038..283a0fc 100644
--- a/hrosailing/models/influencemodel.py
+++ b/hrosailing/models/influencemodel.py
@@ -211,12 +211,18 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
         """
         wind_angles = training_data["TWA"]
         wind_speeds = training_data["TWS"]
-        sample = np.linspace(0, 359, 10 * 360)
+        sample = np.linspace(0, 360, 10 * 360, endpoint=False)
         counts = [
             sum(
                 other_ws
                 * np.exp(
-                    -(((abs(wa - other_wa) % 360) / self._interval_size) ** 2)
+                    -(
+                        (
+                            _circular_distance(wa, other_wa)
+                            / self._interval_size
+                        )
+                        ** 2
+                    )
                 )
                 for other_wa, other_ws in zip(wind_angles, wind_speeds)
             )
@@ -227,6 +233,11 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
         self.set_statistics(wa_shift=min_angle)
 
 
+def _circular_distance(wa, other_wa):
+    distance = abs(wa - other_wa) % 360
+    return min(distance, 360 - distance)
+
+
 def _get_true_wind_data(data: dict):
     speed = "BSP" if "BSP" in data else "SOG"
     if "TWA" in data and "TWS" in data:
-- 
2.43.0


From 1d56b93987686419e1ea6b592458f441ee078304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 054/108] fix: influence models accept dictionaries of arrays
 like dictionaries of lists

---
 hrosailing/models/influencemodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/models/influencemodel.py b/hrosailing/models/influencemodel.py
index 283a0fc..6eb4b8f 100644
--- a/hrosailing/models/influencemodel.py
+++ b/hrosailing/models/influencemodel.py
@@ -121,7 +121,7 @@ class IdentityInfluenceModel(InfluenceModel):
         --------
         `InfluenceModel.add_influence`
         """
-        if isinstance(influence_data["TWS"], list):
+        if isinstance(influence_data["TWS"], (list, np.ndarray)):
             wind = zip(influence_data["TWS"], influence_data["TWA"])
             speed = [pd(ws, wa) for ws, wa in wind]
         else:
@@ -241,7 +241,7 @@ def _circular_distance(wa, other_wa):
 def _get_true_wind_data(data: dict):
     speed = "BSP" if "BSP" in data else "SOG"
     if "TWA" in data and "TWS" in data:
-        if isinstance(data["TWS"], list):
+        if isinstance(data["TWS"], (list, np.ndarray)):
             return data_dict_to_numpy(data, ["TWS", "TWA", speed])
 
         return np.array([data["TWS"], data["TWA"], data[speed]])
-- 
2.43.0


From 824d7f421d721d2735f118af5ceb01a208df8c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 055/108] fix: interpolated weather at points sharing a
 coordinate with the grid used the wrong grid values

---
 hrosailing/models/weather_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 01b4f3a..4982193 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -292,7 +292,7 @@ def _recursive_affine_interpolation(point, grid, get_data):
 
         if comp in cuboid_vals[dim]:
             j = cuboid_vals[dim].index(point_[dim])
-            return recursion(point_, completed + [j])
+            return recursion(point_, completed + [cuboid[dim][j]])
 
         idx0 = cuboid[dim][0]
         idx1 = cuboid[dim][1]
-- 
2.43.0


From 8c5a77d3db220aceb93816ee8daef0f050a478c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 056/108] fix: MultiWeatherModel ignores NotImplementedError as
 documented

---
 hrosailing/models/weather_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 4982193..f9a8c58 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -495,6 +495,7 @@ class MultiWeatherModel(WeatherModel):
                 ValueError,
                 TypeError,
                 KeyError,
+                NotImplementedError,
             ) as e:
                 if self._exception_sensitive:
                     raise e
-- 
2.43.0


From 2c35cf98d54e47111e1197bd6025c07340ddd41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 057/108] fix: fractional time values of NetCDF files were
 truncated to whole units

---
 hrosailing/models/weather_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index f9a8c58..b12a6d9 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -399,7 +399,7 @@ class NetCDFWeatherModel(GriddedWeatherModel):
             )
 
         times = [
-            starting_time + int(plain_time) * timestep
+            starting_time + float(plain_time) * timestep
             for plain_time in plain_times
         ]
 
-- 
2.43.0


From b9610ef98872848acac3ecb119d58a8c85d255d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 058/108] fix: GriddedWeatherModel.from_meteostat failed for
 every place with data under current numpy versions

---
 hrosailing/models/weather_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index b12a6d9..84b146c 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -187,7 +187,7 @@ class GriddedWeatherModel(WeatherModel):
                 lon_data.append(np_data)
             max_len = max(len(d) for d in lon_data)
             lon_data = [
-                np.zeros((max_len, len(keys))) if d == [] else d
+                np.zeros((max_len, len(keys))) if len(d) == 0 else d
                 for d in lon_data
             ]
             lat_datas.append(np.stack(lon_data, axis=0))
-- 
2.43.0


From 167c5e3f244d2dbd4996d1ee9ca56a3ec63339cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 059/108] fix: distances of equal or close points on the sphere
 were NaN or inaccurate

---
 hrosailing/models/globe_model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hrosailing/models/globe_model.py b/hrosailing/models/globe_model.py
index 939f589..4cba6b3 100644
--- a/hrosailing/models/globe_model.py
+++ b/hrosailing/models/globe_model.py
@@ -324,6 +324,4 @@ def _angle(pt1, pt2):
     """Computes angles in radians between points."""
     pt1 = pt1.ravel()
     pt2 = pt2.ravel()
-    return np.arccos(
-        np.dot(pt1, pt2) / np.linalg.norm(pt1) / np.linalg.norm(pt2)
-    )
+    return np.arctan2(np.linalg.norm(np.cross(pt1, pt2)), np.dot(pt1, pt2))
-- 
2.43.0


From 818ef723e7c306c4094fc05211982d5a527f6aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 060/108] fix: shortest path between equal points on the sphere
 failed

---
 hrosailing/models/globe_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/models/globe_model.py b/hrosailing/models/globe_model.py
index 4cba6b3..9fffd5c 100644
--- a/hrosailing/models/globe_model.py
+++ b/hrosailing/models/globe_model.py
@@ -280,6 +280,8 @@ class SphericalGlobe(GlobeModel):
         """
         start, end = _ensure_2d(start, end)
         angle = _angle(start, end)
+        if angle == 0:
+            return np.repeat(start, res, axis=0)
 
         angles = np.linspace(0, angle, res)
 
-- 
2.43.0


From d71965107d2d007358a0178eed8edc906f7bfbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 061/108] fix: latitudes close to the poles were inaccurate or
 NaN

---
 hrosailing/models/globe_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/globe_model.py b/hrosailing/models/globe_model.py
index 9fffd5c..afca82c 100644
--- a/hrosailing/models/globe_model.py
+++ b/hrosailing/models/globe_model.py
@@ -318,7 +318,7 @@ def _on_ball(pts):
 
 def _on_lat_lon(pts):
     x, y, z = pts.transpose()
-    latlon = np.column_stack([np.arcsin(z), np.arctan2(y, x)])
+    latlon = np.column_stack([np.arctan2(z, np.hypot(x, y)), np.arctan2(y, x)])
     return np.rad2deg(latlon)
 
 
-- 
2.43.0


From d55d2dfca8a5a4c36260a7d744cc751390cb5bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 062/108] fix: convex_direction returned a wrong course for
 directions between neighbouring courses, and slow or impossible mixtures for
 directions beyond 360 degrees, partial or unsorted slices

---
 hrosailing/cruising/basics.py | 87 +++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 39 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index eb5d2f6..8fb67b5 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -100,56 +100,61 @@ def convex_direction(
     ws, wa, bsp = slices[0]
     if im:
         bsp = im.add_influence(pd, influence_data)
-    bsp = np.array(bsp).ravel()
-    wa = np.deg2rad(np.array(wa).ravel())
+    sails = info[0] if info else [None] * len(wa)
+    directions, _ = _fastest_directions(wa, bsp, sails, direction)
+    return directions
 
-    polar_pts = np.column_stack(
-        (bsp * np.cos(wa).ravel(), bsp * np.sin(wa).ravel())
-    )
-    conv = ConvexHull(polar_pts)
-    vert = sorted(conv.vertices)
 
-    wa = np.rad2deg(wa)
+def _fastest_directions(wa, bsp, sails, direction):
+    """Computes the one or two directions of `convex_direction` and the speed
+    made good in the given direction by following them.
+    """
+    wa, bsp = np.array(wa).ravel(), np.array(bsp).ravel()
+    order = np.argsort(wa, kind="stable")
+    wa, bsp, sails = wa[order], bsp[order], [sails[i] for i in order]
 
-    for left, right in zip(vert, vert[1:]):
-        if wa[left] <= direction <= wa[right]:
-            i1, i2 = left, right
-            edge = [Direction(wa[i1], 1), Direction(wa[i2], 1)]
-            break
-    else:
-        i1, i2 = vert[0], vert[-1]
-        if abs(wa[i1] - wa[i2]) < 180:
-            raise ValueError(
-                "The given direction is not supported by the given"
-                " polar_diagram."
-            )
-        edge = [Direction(wa[i1], 1), Direction(wa[i2], 1)]
+    wa_rad = np.deg2rad(wa)
+    polar_pts = np.column_stack((bsp * np.cos(wa_rad), bsp * np.sin(wa_rad)))
 
-    if info:
-        edge[0].sail = info[0][i1]
-        edge[1].sail = info[0][i2]
+    best_speed = 0
+    for i1, i2 in np.sort(ConvexHull(polar_pts).simplices):
+        proportion, speed = _get_first_proportion(
+            polar_pts[i1], polar_pts[i2], direction
+        )
+        if speed > best_speed:
+            best_speed, best_proportion, edge = speed, proportion, (i1, i2)
 
-    if edge[0] == direction:
-        return [edge[0]]
+    if best_speed == 0:
+        raise ValueError(
+            "The given direction is not supported by the given polar_diagram."
+        )
 
-    if edge[1] == direction:
-        return [edge[1]]
+    i1, i2 = edge
+    if best_proportion > 1 - 1e-12:
+        return [Direction(wa[i1], 1, sails[i1])], best_speed
+
+    if best_proportion < 1e-12:
+        return [Direction(wa[i2], 1, sails[i2])], best_speed
 
     # direction lies on a common edge of polar diagram and convex hull
-    if abs(i1 - i2) == 1 and edge[0].sail == edge[1].sail:
-        return [edge[0]]
+    if abs(i1 - i2) == 1 and sails[i1] == sails[i2]:
+        return [Direction(direction % 360, 1, sails[i1])], best_speed
 
-    lambda_ = _get_first_proportion(
-        conv.points[i1], conv.points[i2], direction
-    )
-    if lambda_ > 1 or lambda_ < 0:
-        lambda_ = (direction + 360 - wa[i2]) / (wa[i1] + 360 - wa[i2])
-    edge[0].proportion = lambda_
-    edge[1].proportion = 1 - lambda_
-    return edge
+    return [
+        Direction(wa[i1], best_proportion, sails[i1]),
+        Direction(wa[i2], 1 - best_proportion, sails[i2]),
+    ], best_speed
 
 
 def _get_first_proportion(point1, point2, direction):
+    """Computes the proportion of `point1` in the convex combination of both
+    points lying in the given direction, as well as its distance to the
+    origin. The distance is zero if there is no such convex combination.
+    """
+    cross = point1[0] * point2[1] - point1[1] * point2[0]
+    if abs(cross) <= 1e-12 * np.linalg.norm(point1) * np.linalg.norm(point2):
+        return 0, 0
+
     direction_rad = np.deg2rad(direction)
     direction_polar = np.array(
         [math.cos(direction_rad), math.sin(direction_rad)]
@@ -157,7 +162,11 @@ def _get_first_proportion(point1, point2, direction):
     scalars = np.linalg.solve(
         np.column_stack([point1, point2]), direction_polar
     )
-    return scalars[0] / sum(scalars)
+    if min(scalars) < -1e-12 * max(scalars):
+        return 0, 0
+
+    scalars = np.maximum(scalars, 0)
+    return scalars[0] / sum(scalars), 1 / sum(scalars)
 
 
 def cruise(
-- 
2.43.0


From c40b2d98179caabee05c64aaf96e5bec605ecbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 063/108] fix: distances of cruises mixed up degrees and
 radians and were in kilometres instead of nautical miles

---
 hrosailing/cruising/basics.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 8fb67b5..d1c1d6a 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -607,13 +607,14 @@ def _uvgrid_to_tw(ugrid, vgrid, hdt):
 
 
 EARTH_FLATTENING = 1 / 298.257223563
-EQUATOR_CIRCUMFERENCE = 40075.017
+EQUATOR_CIRCUMFERENCE = 40075.017 / 1.852  # in nautical miles
 
 
 def _great_earth_ellipsoid_distance(a, b):
-    """Calculates the distance on the surface for two points on the
-    earth surface.
+    """Calculates the distance on the surface in nautical miles for two
+    points on the earth surface, given in longitude and latitude.
     """
+    a, b = np.deg2rad(a), np.deg2rad(b)
     f = (a[1] + b[1]) / 2
     g = (a[1] - b[1]) / 2
     lat = (a[0] - b[0]) / 2
@@ -621,7 +622,10 @@ def _great_earth_ellipsoid_distance(a, b):
     s = (np.sin(g) * np.cos(lat)) ** 2 + (np.cos(f) * np.sin(lat)) ** 2
     c = (np.cos(g) * np.cos(lat)) ** 2 + (np.sin(f) * np.sin(lat)) ** 2
 
-    omega = np.deg2rad(np.arctan(np.sqrt(s / c)))
+    if s == 0:
+        return 0.0
+
+    omega = np.arctan(np.sqrt(s / c))
     d = EQUATOR_CIRCUMFERENCE * omega / np.pi
 
     t = np.sqrt(s * c) / omega
-- 
2.43.0


From 32a51d3076855d8939f5dfbcae057cff497b2915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 064/108] fix: courses between two points mixed up degrees and
 radians and could not point westwards

---
 hrosailing/cruising/basics.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index d1c1d6a..be25064 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -253,10 +253,7 @@ def cruise(
 
     rhc = _right_handing_course(start, end)
 
-    heading = np.arccos(
-        np.cos(rhc) * np.cos(wdir) + np.sin(rhc) * np.sin(wdir)
-    )
-    heading = 180 - np.rad2deg(heading)
+    heading = (rhc - wdir) % 360
     d1, *d2 = convex_direction(pd, ws, heading)
 
     dist = _great_earth_ellipsoid_distance(start, end)
@@ -357,7 +354,8 @@ def cost_cruise(
     proj_end = _mercator_proj(end, lat_mp)
     total_s = np.linalg.norm(proj_end - proj_start)
 
-    hdt = _right_handing_course(start, end)
+    # course of the straight line in the projection
+    hdt = np.rad2deg(np.arctan2(*(proj_end - proj_start))) % 360
 
     # define derivative of t by s
     def dt_ds(s, t):
@@ -532,17 +530,16 @@ def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
 
 
 def _right_handing_course(a, b):
-    """Calculates course between two points on the surface of the earth
-    relative to true north.
+    """Calculates course in degrees between two points on the surface of the
+    earth, given in longitude and latitude, relative to true north.
     """
-    numerator = np.cos(a[1]) * np.sin(b[1]) - np.cos(a[0] - b[0]) * np.cos(
+    a, b = np.deg2rad(a), np.deg2rad(b)
+    north = np.cos(a[1]) * np.sin(b[1]) - np.cos(b[0] - a[0]) * np.cos(
         b[1]
     ) * np.sin(a[1])
-    denominator = np.cos(a[0] - b[0]) * np.cos(a[1]) * np.cos(b[1]) + np.sin(
-        a[1]
-    ) * np.cos(b[1])
+    east = np.sin(b[0] - a[0]) * np.cos(b[1])
 
-    return np.arccos(numerator / np.sqrt(1 - denominator**2))
+    return np.rad2deg(np.arctan2(east, north)) % 360
 
 
 def _wind_relative_to_north(wind, wind_fmt):
-- 
2.43.0


From 3b5fadc0071c9a015bd30fd62002e92783155449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 065/108] fix: wind directions were computed relative to east
 and mirrored from the wind components u and v

---
 hrosailing/cruising/basics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index be25064..55a7acc 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -584,7 +584,7 @@ def _wind_relative_to_north(wind, wind_fmt):
     if wind_fmt == "uv_grd":
         wind = np.array(wind)
         u, v = wind
-        return np.linalg.norm(wind), 180 / np.pi * np.arctan2(v, u)
+        return np.linalg.norm(wind), (270 - np.rad2deg(np.arctan2(v, u))) % 360
 
     raise AttributeError(f"wind_fmt '{wind_fmt}' is not supported")
 
@@ -598,7 +598,7 @@ def _wind_relative_to_north(wind, wind_fmt):
 def _uvgrid_to_tw(ugrid, vgrid, hdt):
     """Calculates the true wind speed and wind angle from given grib data."""
     tws = np.sqrt(ugrid**2 + vgrid**2)
-    wa = (180 + 180 / np.pi * np.arctan2(vgrid, ugrid)) % 360
+    wa = (270 - np.rad2deg(np.arctan2(vgrid, ugrid))) % 360
     twa = (hdt - wa) % 360
     return tws, twa
 
-- 
2.43.0


From de4eefa6b4f506707c0d70ce084145adcb8149ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:17 +0000
Subject: [PATCH 066/108] fix: the mercator projection of cruises mixed up
 latitude and longitude, degrees and radians and statute and nautical miles

---
 hrosailing/cruising/basics.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 55a7acc..dececec 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -490,22 +490,31 @@ def _inverse_mercator_proj(pt, lat_mp):
     """
     Computes point from its mercator projection with reference point `lat_mp`.
     """
-    x, y = pt / 69
-    return x + lat_mp, 180 / np.pi * np.arcsin(np.tanh(y))
+    x, y = pt / _mercator_scale(lat_mp)
+    return 180 / np.pi * np.arcsin(np.tanh(y)), 180 / np.pi * x
 
 
 def _mercator_proj(pt, lat_mp):
     """
     Computes the mercator projection with reference point `lat_mp` of a point.
+    The first component points eastwards, the second one northwards.
     """
-    lat, long = pt
+    lat, long = np.deg2rad(pt)
 
-    # 69 nautical miles between two latitudes
-    return 69 * np.array(
-        [(lat - lat_mp), np.arcsinh(np.tan(np.pi * long / 180))]
+    return _mercator_scale(lat_mp) * np.array(
+        [long, np.arcsinh(np.tan(lat))]
     )
 
 
+def _mercator_scale(lat_mp):
+    """
+    Computes the scale in nautical miles at which the mercator projection
+    is true to length at latitude `lat_mp`.
+    """
+    # 60 nautical miles between two latitudes
+    return 60 * 180 / np.pi * np.cos(np.deg2rad(lat_mp))
+
+
 def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
     """"""
     lat, long = _inverse_mercator_proj(pos, lat_mp)
-- 
2.43.0


From 4fc33f5d3392933016e88cac783a3994457ab07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:17 +0000
Subject: [PATCH 067/108] fix: cruise added up boat speeds of different
 directions as if they were parallel, ignored influences when choosing the
 directions and changed the given influence data

---
 hrosailing/cruising/basics.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index dececec..af49922 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -241,12 +241,13 @@ def cruise(
 
     ws, wdir = _wind_relative_to_north(wind, wind_fmt)
 
-    _, slices, _ = pd.get_slices(ws, full_info=True)
+    _, slices, info = pd.get_slices(ws, full_info=True)
     ws, wa, bsp = slices[0]
     if im:
-        for key, val in influence_data.items():
-            influence_data[key] = [val] * len(wa)
-        influence_data["TWS"] = [ws] * len(wa)
+        influence_data = {
+            key: [val] * len(wa) for key, val in (influence_data or {}).items()
+        }
+        influence_data["TWS"] = ws
         influence_data["TWA"] = wa
         bsp = im.add_influence(pd, influence_data)
     bsp = np.array(bsp).ravel()
@@ -254,21 +255,11 @@ def cruise(
     rhc = _right_handing_course(start, end)
 
     heading = (rhc - wdir) % 360
-    d1, *d2 = convex_direction(pd, ws, heading)
-
-    dist = _great_earth_ellipsoid_distance(start, end)
-
-    bsp1 = bsp[np.where(wa == d1.angle)[0]]
-    if not d2:
-        return [(d1.angle, float(dist / bsp1))]
-
-    d2 = d2[0]
-    bsp2 = bsp[np.where(wa == d2.angle)[0]]
-
-    t = dist / (d1.proportion * bsp1 + d2.proportion * bsp2)
-    t1, t2 = d1.proportion * t, d2.proportion * t
+    sails = info[0] if info else [None] * len(wa)
+    directions, speed = _fastest_directions(wa, bsp, sails, heading)
 
-    return [(d1.angle, float(t1)), (d2.angle, float(t2))]
+    t = _great_earth_ellipsoid_distance(start, end) / speed
+    return [(d.angle, float(d.proportion * t)) for d in directions]
 
 
 def cost_cruise(
-- 
2.43.0


From dfefcdf68f36969aa7e75bb74c53261f498013ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:17 +0000
Subject: [PATCH 068/108] fix: isochrone and cost_cruise did not support
 weather given by TWS and TWA as documented

---
 hrosailing/cruising/basics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index af49922..1abec17 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -519,8 +519,11 @@ def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
         data = {key: [val] for key, val in data.items()}
         bsp = im.add_influence(pd, data)[0]
     else:
-        ugrid, vgrid = data["UGRID"], data["VGRID"]
-        tws, twa = _uvgrid_to_tw(ugrid, vgrid, hdt)
+        if "TWS" in data and "TWA" in data:
+            tws, twa = data["TWS"], data["TWA"]
+        else:
+            ugrid, vgrid = data["UGRID"], data["VGRID"]
+            tws, twa = _uvgrid_to_tw(ugrid, vgrid, hdt)
         bsp = pd(tws, twa)
 
     if bsp != 0:
-- 
2.43.0


From 60ab8350cea2c7502a7fc81d19eec71081f976c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:17 +0000
Subject: [PATCH 069/108] fix: isochrone did not terminate, and cost_cruise
 took no time, in a calm

---
 hrosailing/cruising/basics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 1abec17..ae06fcf 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -529,7 +529,7 @@ def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
     if bsp != 0:
         return 1 / bsp
 
-    return 0
+    return 1000
 
 
 def _right_handing_course(a, b):
-- 
2.43.0


From e7c679c19eac593f0b01f0816513282603d91b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 070/108] fix: the pipeline reported the statistics of the pre
 influence filter as those of the pre expanding filter

---
 hrosailing/pipeline/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/pipeline.py b/hrosailing/pipeline/pipeline.py
index 7d78236..cbeafbf 100644
--- a/hrosailing/pipeline/pipeline.py
+++ b/hrosailing/pipeline/pipeline.py
@@ -365,7 +365,7 @@ class PolarPipeline:
             pp_training_statistics.imputator,
             pp_training_statistics.smoother,
             pp_training_statistics.pre_expanding_weigher,
-            pp_training_statistics.pre_influence_filter,
+            pp_training_statistics.pre_expanding_filter,
             pp_training_statistics.expander,
             pp_training_statistics.pre_influence_weigher,
             pp_training_statistics.pre_influence_filter,
-- 
2.43.0


From 9eaee95d726962666a94d0f142083c34c22be732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 071/108] fix: a list of data handlers could not be used in the
 pipeline

---
 hrosailing/pipeline/pipeline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/pipeline.py b/hrosailing/pipeline/pipeline.py
index cbeafbf..3699dc9 100644
--- a/hrosailing/pipeline/pipeline.py
+++ b/hrosailing/pipeline/pipeline.py
@@ -315,6 +315,9 @@ class PolarPipeline:
 
         self._set_with_default(enabling, keys, defaults, aliases)
 
+        if not isinstance(self.data_handler, pc.DataHandler):
+            self._handlers = iter(self.data_handler)
+
         if test_data is None:
             self.testing = False
 
@@ -501,7 +504,7 @@ class PolarPipeline:
         else:
             handler_output = []
             for field in data:
-                handler = next(self.data_handler)
+                handler = next(self._handlers)
                 handler_output.append(_collect(handler, handler.handle, field))
 
         return self._list_statistics(handler_output)
-- 
2.43.0


From 0e4b6bf54c8a013293c73698ae938c58a85a1426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 072/108] fix: CurveExtension changed the wind angles of the
 given points to radians

---
 hrosailing/pipeline/extensions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hrosailing/pipeline/extensions.py b/hrosailing/pipeline/extensions.py
index 7ca6d7c..d13849b 100644
--- a/hrosailing/pipeline/extensions.py
+++ b/hrosailing/pipeline/extensions.py
@@ -233,10 +233,11 @@ class CurveExtension(PipelineExtension):
         --------
         `PipelineExtension.process`
         """
+        data = weighted_points.data
         if self._use_radians():
-            _convert_angles_to_radians(weighted_points)
+            data = _convert_angles_to_radians(data)
 
-        self.regressor.fit(weighted_points.data)
+        self.regressor.fit(data)
 
         return pol.PolarDiagramCurve(
             self.regressor.model_func,
@@ -248,8 +249,8 @@ class CurveExtension(PipelineExtension):
         return self.radians
 
 
-def _convert_angles_to_radians(weighted_points):
-    weighted_points.data[:, 1] = np.deg2rad(weighted_points.data[:, 1])
+def _convert_angles_to_radians(data):
+    return np.column_stack([data[:, 0], np.deg2rad(data[:, 1]), data[:, 2]])
 
 
 class PointcloudExtension(PipelineExtension):
-- 
2.43.0


From effbcc03d5a3504623fc65bf3cc91a7dc550507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 073/108] fix: the automatic resolution of TableExtension
 contained winds twice

---
 hrosailing/pipeline/extensions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/pipeline/extensions.py b/hrosailing/pipeline/extensions.py
index d13849b..3d55254 100644
--- a/hrosailing/pipeline/extensions.py
+++ b/hrosailing/pipeline/extensions.py
@@ -137,9 +137,9 @@ class TableExtension(PipelineExtension):
 
 def _automatically_determined_resolution(points):
     ws_resolution = _extract_wind(points[:, 0], 2, 100)
-    wa_resolution = _extract_wind(points[:, 1], 5, 30)
+    wa_resolution = [w % 360 for w in _extract_wind(points[:, 1], 5, 30)]
 
-    return ws_resolution, wa_resolution
+    return sorted(set(ws_resolution)), sorted(set(wa_resolution))
 
 
 def _min_max_resolution(points):
-- 
2.43.0


From 1ce5fb30e3a59378bd42766967efcce3ea62ef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 074/108] fix: missing entries of csv files and data frames
 were not delivered as None

---
 hrosailing/processing/datahandler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 3693ee6..a16fed8 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -54,6 +54,10 @@ class DataHandler(ComponentWithStatistics, ABC):
         super().set_statistics(n_rows=data.n_rows, n_cols=data.n_cols)
 
 
+def _missing_to_none(df):
+    return df.astype(object).where(df.notna(), None)
+
+
 class ArrayHandler(DataHandler):
     """A data handler to interpret data given as an array-type.
 
@@ -87,7 +91,7 @@ class ArrayHandler(DataHandler):
         `DataHandler.handle`
         """
         if self.pand and isinstance(data, self.pd.DataFrame):
-            data_dict = data.to_dict(orient="list")
+            data_dict = _missing_to_none(data).to_dict(orient="list")
         else:
             arr, keys = data
             arr = np.asarray(arr)
@@ -151,7 +155,7 @@ class CsvFileHandler(DataHandler):
         """
         if self.pand:
             df = self.pd.read_csv(data)
-            data_dict = df.to_dict(orient="list")
+            data_dict = _missing_to_none(df).to_dict(orient="list")
         else:
             with open(data, "r", encoding="utf-8") as file:
                 csv_reader = csv.reader(file)
@@ -174,6 +178,8 @@ class CsvFileHandler(DataHandler):
     def _save_eval(self, entry):
         if not isinstance(entry, str):
             return entry
+        if entry.strip() == "":
+            return None
         try:
             return datetime.strptime(entry.strip(), self._date_format)
         except (ValueError, TypeError, AttributeError):
-- 
2.43.0


From aa1167e540345ffbf4dc4d030b1895216c1f368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 075/108] fix: csv columns with integers and decimal numbers
 could not be read without pandas

---
 hrosailing/processing/datahandler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index a16fed8..2cdf492 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -184,13 +184,15 @@ class CsvFileHandler(DataHandler):
             return datetime.strptime(entry.strip(), self._date_format)
         except (ValueError, TypeError, AttributeError):
             try:
-                return literal_eval(entry)
-            except SyntaxError as exc:
+                value = literal_eval(entry)
+            except (SyntaxError, ValueError) as exc:
                 raise RuntimeError(
                     f"Could not parse '{entry}'. "
                     "Try using `CsvFileHandler(date_format=...)` "
                     "or check your format string."
                 ) from exc
+            # columns may contain both, 5 and 5.5
+            return float(value) if type(value) is int else value
 
 
 class NMEAFileHandler(DataHandler):
-- 
2.43.0


From f9568eddf0f09575f848be1775173da7d7ce606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 076/108] fix: values of csv files read without pandas moved to
 other rows after a row that was too short

---
 hrosailing/processing/datahandler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 2cdf492..9697c7c 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -161,7 +161,9 @@ class CsvFileHandler(DataHandler):
                 csv_reader = csv.reader(file)
                 keys = next(csv_reader)
                 data_dict = {key: [] for key in keys}
-                for row in csv_reader:
+                for row in filter(None, csv_reader):
+                    # short rows miss their last entries
+                    row += [""] * (len(keys) - len(row))
                     for i, entry in enumerate(row):
                         data_dict[keys[i]].append(entry)
 
-- 
2.43.0


From 242fc7417f7d52688502869c3bbf2d53dacba268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 077/108] fix: apparent winds of NMEA sentences were filed as
 true winds if only their speed or angle was wanted

---
 hrosailing/processing/datahandler.py | 31 +++++++++++++---------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 9697c7c..9100696 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -332,23 +332,20 @@ class NMEAFileHandler(DataHandler):
         return comp_data
 
     def _postprocess(self, parsed_sentence):
-        if (
-            "Wind angle" in parsed_sentence
-            and "Reference" in parsed_sentence
-            and "Wind speed" in parsed_sentence
-        ):
-            wind_angle = parsed_sentence["Wind angle"]
-            wind_speed = parsed_sentence["Wind speed"]
-            reference = parsed_sentence["Reference"]
-            if reference == "R":
-                parsed_sentence["AWA"] = wind_angle
-                parsed_sentence["AWS"] = wind_speed
-            elif reference == "T":
-                parsed_sentence["TWA"] = wind_angle
-                parsed_sentence["TWS"] = wind_speed
-            del parsed_sentence["Reference"]
-            del parsed_sentence["Wind angle"]
-            del parsed_sentence["Wind speed"]
+        wind_keys = [
+            key
+            for key in ("Wind angle", "Wind speed")
+            if key in parsed_sentence
+        ]
+        if wind_keys and "Reference" in parsed_sentence:
+            reference = parsed_sentence.pop("Reference")
+            for key in wind_keys:
+                value = parsed_sentence.pop(key)
+                suffix = {"Wind angle": "WA", "Wind speed": "WS"}[key]
+                if reference == "R":
+                    parsed_sentence["A" + suffix] = value
+                elif reference == "T":
+                    parsed_sentence["T" + suffix] = value
         if "Latitude" in parsed_sentence:
             parsed_sentence["lat"] = self._from_nmea_format(
                 parsed_sentence["Latitude"]
-- 
2.43.0


From e81169bf973d600cd6d774d0ee0d6344e7f0887d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 078/108] fix: southern latitudes and western longitudes of
 NMEA sentences were delivered as northern and eastern ones

---
 hrosailing/processing/datahandler.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 9100696..d5a3913 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -320,6 +320,11 @@ class NMEAFileHandler(DataHandler):
 
                 processed_dict = self._postprocess(parsed_dict)
 
+                if getattr(parsed_sentence, "lat_dir", None) == "S":
+                    _negate(processed_dict, "lat")
+                if getattr(parsed_sentence, "lon_dir", None) == "W":
+                    _negate(processed_dict, "lon")
+
                 comp_data.update(processed_dict, compress=True)
 
         comp_data.hrosailing_standard_format()
@@ -387,3 +392,8 @@ class NMEAFileHandler(DataHandler):
             second=seconds,
             microsecond=microseconds,
         )
+
+
+def _negate(dict_, key):
+    if dict_.get(key) is not None:
+        dict_[key] = -dict_[key]
-- 
2.43.0


From b60ce74bbfdfaa3bcb41876829aa8714604e2a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 079/108] fix: empty fields of NMEA sentences made the handler
 fail or lose all values of the attribute

---
 hrosailing/processing/datahandler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index d5a3913..68dca26 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -317,6 +317,11 @@ class NMEAFileHandler(DataHandler):
                     name: getattr(parsed_sentence, attribute)
                     for name, attribute in wanted_fields
                 }
+                # empty fields
+                parsed_dict = {
+                    name: None if value == "" else value
+                    for name, value in parsed_dict.items()
+                }
 
                 processed_dict = self._postprocess(parsed_dict)
 
@@ -370,6 +375,8 @@ class NMEAFileHandler(DataHandler):
         return parsed_sentence
 
     def _from_nmea_format(self, value):
+        if value is None:
+            return None
         value = float(value)
         degrees = int(value / 100)
         minutes = value - 100 * degrees
-- 
2.43.0


From b788e2ce1847f535d85ddc9a553bc3e8b4eea9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 080/108] fix: NMEA time stamps with 60 seconds made the
 handler fail or got a wrong fraction of the second

---
 hrosailing/processing/datahandler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 68dca26..38d83a5 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -12,7 +12,7 @@ create custom data handlers to handle formats which are not supported yet.
 import csv
 from abc import ABC, abstractmethod
 from ast import literal_eval
-from datetime import date, datetime, time
+from datetime import date, datetime, time, timezone
 
 import numpy as np
 
@@ -386,18 +386,19 @@ class NMEAFileHandler(DataHandler):
         hours = int(timestr[0:2])
         minutes = int(timestr[2:4])
         seconds = int(timestr[4:6])
-        microseconds = int(timestr.split(".")[1])
+        microseconds = int(timestr[7:13].ljust(6, "0"))
         if seconds >= 60:
             minutes += seconds // 60
             seconds %= 60
         if minutes >= 60:
-            hours += minutes // 60
+            hours = (hours + minutes // 60) % 24
             minutes %= 60
         return time(
             hour=hours,
             minute=minutes,
             second=seconds,
             microsecond=microseconds,
+            tzinfo=timezone.utc,
         )
 
 
-- 
2.43.0


From cab74c87950cfc3082ce63952e9a1499ac6eaaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 081/108] fix: wanted_attributes with BSP or SOG read no boat
 speeds, and speeds over ground from RMC sentences only

---
 hrosailing/core/constants.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/core/constants.py b/hrosailing/core/constants.py
index faa7673..d6e39c9 100644
--- a/hrosailing/core/constants.py
+++ b/hrosailing/core/constants.py
@@ -96,7 +96,8 @@ HROSAILING_TO_NMEA = {
     "AWA": ["Wind angle", "Reference"],
     "lat": ["Latitude"],
     "lon": ["Longitude"],
-    "SOG": ["Speed Over Ground"],
+    "BSP": ["Water speed knots"],
+    "SOG": ["Speed Over Ground", "Speed over ground knots"],
     "date": ["Datestamp"],
     "time": ["Timestamp"],
 }
-- 
2.43.0


From 0d592dba02f9f4b95b273d92eef0cfa9cd796e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 082/108] fix: NMEAFileHandler forgot wanted or unwanted
 sentences given as an iterator after the first line

---
 hrosailing/processing/datahandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 38d83a5..71d017d 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -251,10 +251,12 @@ class NMEAFileHandler(DataHandler):
     ):
         super().__init__()
         if wanted_sentences is not None:
+            wanted_sentences = list(wanted_sentences)
             self._sentence_filter = lambda line: any(
                 sentence in line for sentence in wanted_sentences
             )
         elif unwanted_sentences is not None:
+            unwanted_sentences = list(unwanted_sentences)
             self._sentence_filter = lambda line: all(
                 sentence not in line for sentence in unwanted_sentences
             )
@@ -273,6 +275,7 @@ class NMEAFileHandler(DataHandler):
                 field[0] == attribute for attribute in wanted_nmea_attributes
             )
         elif unwanted_attributes is not None:
+            unwanted_attributes = list(unwanted_attributes)
             self._attribute_filter = lambda field: all(
                 field[0] != attribute for attribute in unwanted_attributes
             )
-- 
2.43.0


From c4ba0b2ac373038e6a291b8575fe33a33b239b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:14 +0000
Subject: [PATCH 083/108] fix: quality assurances, influence models and
 cruising evaluated curves in radians at degrees

---
 hrosailing/core/computing.py             | 24 ++++++++++++++++++++++++
 hrosailing/cruising/basics.py            |  3 ++-
 hrosailing/models/influencemodel.py      | 14 ++++++++++----
 hrosailing/pipeline/quality_assurance.py | 14 ++++++++++----
 4 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/hrosailing/core/computing.py b/hrosailing/core/computing.py
index 9180f80..56b109e 100644
--- a/hrosailing/core/computing.py
+++ b/hrosailing/core/computing.py
@@ -196,6 +196,30 @@ def data_dict_to_numpy(data_dict, keys):
     return np.column_stack([data_dict[key] for key in keys])
 
 
+def evaluate_at_degrees(pd, ws, wa):
+    """
+    Evaluates a polar diagram at a wind angle given in degrees, also if the
+    polar diagram itself takes radians.
+
+    Parameters
+    ----------
+    pd : PolarDiagram
+
+    ws : int or float
+        Wind speed.
+
+    wa : int or float
+        Wind angle in degrees.
+
+    Returns
+    -------
+    bsp : int or float
+    """
+    if getattr(pd, "radians", False) is True:
+        return pd(ws, np.deg2rad(wa))
+    return pd(ws, wa)
+
+
 def safe_operation(operand, value):
     """
     Perform an operation savely, returning `None` if one of the following
diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index ae06fcf..184813c 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -11,6 +11,7 @@ import numpy as np
 from scipy.integrate import solve_ivp, trapezoid
 from scipy.spatial import ConvexHull
 
+from hrosailing.core.computing import evaluate_at_degrees
 from hrosailing.models import InfluenceModel, WeatherModel
 
 
@@ -524,7 +525,7 @@ def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
         else:
             ugrid, vgrid = data["UGRID"], data["VGRID"]
             tws, twa = _uvgrid_to_tw(ugrid, vgrid, hdt)
-        bsp = pd(tws, twa)
+        bsp = evaluate_at_degrees(pd, tws, twa)
 
     if bsp != 0:
         return 1 / bsp
diff --git a/hrosailing/models/influencemodel.py b/hrosailing/models/influencemodel.py
index 6eb4b8f..67e247f 100644
--- a/hrosailing/models/influencemodel.py
+++ b/hrosailing/models/influencemodel.py
@@ -15,6 +15,7 @@ import numpy as np
 from hrosailing.core.computing import (
     convert_apparent_wind_to_true,
     data_dict_to_numpy,
+    evaluate_at_degrees,
 )
 from hrosailing.core.statistics import ComponentWithStatistics
 
@@ -123,10 +124,10 @@ class IdentityInfluenceModel(InfluenceModel):
         """
         if isinstance(influence_data["TWS"], (list, np.ndarray)):
             wind = zip(influence_data["TWS"], influence_data["TWA"])
-            speed = [pd(ws, wa) for ws, wa in wind]
+            speed = [evaluate_at_degrees(pd, ws, wa) for ws, wa in wind]
         else:
             ws, wa = influence_data["TWS"], influence_data["TWA"]
-            speed = pd(ws, wa)
+            speed = evaluate_at_degrees(pd, ws, wa)
         return speed
 
     def fit(self, training_data: dict):
@@ -189,10 +190,15 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
         """
         if isinstance(influence_data["TWS"], (list, np.ndarray)):
             wind = zip(influence_data["TWS"], influence_data["TWA"])
-            speed = [pd(ws, (wa + self._wa_shift) % 360) for ws, wa in wind]
+            speed = [
+                evaluate_at_degrees(pd, ws, (wa + self._wa_shift) % 360)
+                for ws, wa in wind
+            ]
         else:
             ws, wa = influence_data["TWS"], influence_data["TWA"]
-            speed = pd(ws, (wa + self._wa_shift) % 360)
+            speed = evaluate_at_degrees(
+                pd, ws, (wa + self._wa_shift) % 360
+            )
         return speed
 
     def fit(self, training_data):
diff --git a/hrosailing/pipeline/quality_assurance.py b/hrosailing/pipeline/quality_assurance.py
index 63caced..6c276ea 100644
--- a/hrosailing/pipeline/quality_assurance.py
+++ b/hrosailing/pipeline/quality_assurance.py
@@ -7,7 +7,7 @@ from abc import ABC, abstractmethod
 
 import numpy as np
 
-from hrosailing.core.computing import safe_operation
+from hrosailing.core.computing import evaluate_at_degrees, safe_operation
 
 
 class QualityAssurance(ABC):
@@ -62,7 +62,10 @@ class MinimalQualityAssurance(QualityAssurance):
         ---------
         `QualityAssurance.check`
         """
-        diffs = [abs(bsp - polar_diagram(ws, wa)) for ws, wa, bsp in test_data]
+        diffs = [
+            abs(bsp - evaluate_at_degrees(polar_diagram, ws, wa))
+            for ws, wa, bsp in test_data
+        ]
         statistics = {
             "max_error": max(diffs),
             "min_error": min(diffs),
@@ -104,9 +107,12 @@ class ComformingQualityAssurance(QualityAssurance):
         ---------
         `QualityAssurance.check`
         """
-        diffs = [abs(bsp - polar_diagram(ws, wa)) for ws, wa, bsp in test_data]
+        diffs = [
+            abs(bsp - evaluate_at_degrees(polar_diagram, ws, wa))
+            for ws, wa, bsp in test_data
+        ]
         zero_diffs = [
-            abs(polar_diagram(ws, wa))
+            abs(evaluate_at_degrees(polar_diagram, ws, wa))
             for ws in np.linspace(0, 20, 20)
             for wa in [0, 360]
         ]
-- 
2.43.0


From d2e600dafe6388ed9d8711c08856cf90cf476dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:01 +0000
Subject: [PATCH 084/108] fix: ComformingQualityAssurance failed for every
 point cloud

---
 hrosailing/pipeline/quality_assurance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/quality_assurance.py b/hrosailing/pipeline/quality_assurance.py
index 6c276ea..b946342 100644
--- a/hrosailing/pipeline/quality_assurance.py
+++ b/hrosailing/pipeline/quality_assurance.py
@@ -113,7 +113,8 @@ class ComformingQualityAssurance(QualityAssurance):
         ]
         zero_diffs = [
             abs(evaluate_at_degrees(polar_diagram, ws, wa))
-            for ws in np.linspace(0, 20, 20)
+            # point clouds have no boat speeds at wind speed 0
+            for ws in np.linspace(0, 20, 20)[1:]
             for wa in [0, 360]
         ]
         tested_tuples = {}
-- 
2.43.0


From 563e400eb838033327933dcc8ca9351bb2348111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:02 +0000
Subject: [PATCH 085/108] fix: ComformingQualityAssurance did not report the
 local test data difference

---
 hrosailing/pipeline/quality_assurance.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hrosailing/pipeline/quality_assurance.py b/hrosailing/pipeline/quality_assurance.py
index b946342..74e6cc1 100644
--- a/hrosailing/pipeline/quality_assurance.py
+++ b/hrosailing/pipeline/quality_assurance.py
@@ -125,6 +125,10 @@ class ComformingQualityAssurance(QualityAssurance):
             prev_min, prev_max = tested_tuples[test_tuple]
             tested_tuples[test_tuple] = min(bsp, prev_min), max(bsp, prev_max)
 
+        local_differences = [
+            bsp_max - bsp_min for bsp_min, bsp_max in tested_tuples.values()
+        ]
+
         statistics = {
             "max_error": safe_operation(max, diffs),
             "min_error": safe_operation(min, diffs),
@@ -139,12 +143,11 @@ class ComformingQualityAssurance(QualityAssurance):
                 np.mean, [diff**2 for diff in zero_diffs]
             ),
             "test_covering": len(tested_tuples),
+            "local_test_data_difference": safe_operation(
+                max, local_differences
+            ),
             "average_local_test_data_difference": safe_operation(
-                np.mean,
-                [
-                    bsp_max - bsp_min
-                    for bsp_min, bsp_max in tested_tuples.values()
-                ],
+                np.mean, local_differences
             ),
         }
         return statistics
-- 
2.43.0


From 6fd029f4ddcd5b7d294e7abb4dcbdaacc4f766df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 086/108] fix: plots of several sails mixed up which point
 belongs to which sail

---
 hrosailing/plotting/projections.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 70b3afe..dfcc23f 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -456,7 +456,10 @@ def _plot(
         return
 
     for slice_, info_ in safe_zip(slices, info):
-        slice_ = slice_[:, np.argsort(slice_[1])]
+        order = np.argsort(slice_[1], kind="stable")
+        slice_ = slice_[:, order]
+        if info_ is not None:
+            info_ = [info_[i] for i in order]
         if use_convex_hull:
             ws, wa, bsp, info_ = _get_convex_hull(slice_, info_)
         else:
-- 
2.43.0


From 940bdd9b40c0d7adec0759857986b7112d40343a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 087/108] fix: single colors given as floats, with a legend or
 for gradients and 3d plots made plots fail or take other colors

---
 hrosailing/plotting/projections.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index dfcc23f..80db487 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -689,14 +689,7 @@ def _configure_colors(ax, labels, colors):
 
 
 def _only_one_color(colors):
-    if isinstance(colors, str):
-        return is_color_like(colors)
-
-    if isinstance(colors, tuple) and len(colors) in {3, 4}:
-        if isinstance(colors[0], int):
-            return is_color_like(colors)
-
-    return False
+    return is_color_like(colors)
 
 
 def _no_color_gradient(colors):
@@ -748,6 +741,9 @@ def _get_gradient_coefficients(gradient):
 
 
 def _determine_colors_from_coefficients(coefficients, colors):
+    if _only_one_color(colors):
+        colors = (colors, colors)
+
     min_color = np.array(to_rgb(colors[0]))
     max_color = np.array(to_rgb(colors[1]))
 
@@ -761,6 +757,9 @@ def _configure_legend(ax, ws, colors, label, **legend_kw):
         _set_colormap(ws, colors, ax, label, **legend_kw)
         return
 
+    if _only_one_color(colors):
+        colors = [colors] * len(ws)
+
     if isinstance(colors[0], tuple) and not is_color_like(colors[0]):
         _set_legend_without_wind_speeds(ax, colors, legend_kw)
         return
@@ -822,4 +821,7 @@ def _remove_3d_tick_labels_for_polar_coordinates(ax):
 
 
 def _create_color_map(colors):
+    if _only_one_color(colors):
+        colors = (colors, colors)
+
     return LinearSegmentedColormap.from_list("cmap", list(colors))
-- 
2.43.0


From 0c426647002109aba3500342e41b2ba47f242a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 088/108] fix: color gradients of constant boat speeds had
 undefined colors

---
 hrosailing/plotting/projections.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 80db487..807b7d0 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -734,6 +734,9 @@ def _get_gradient_coefficients(gradient):
     min_gradient = gradient.min()
     max_gradient = gradient.max()
 
+    if min_gradient == max_gradient:
+        return [0 for _ in gradient]
+
     return [
         (grad - min_gradient) / (max_gradient - min_gradient)
         for grad in gradient
-- 
2.43.0


From 27fa9fbb9ed142ad9ff5141344121726b0b7609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 089/108] fix: convex hulls were drawn through a wrong point at
 wind angle 0

---
 hrosailing/plotting/projections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 807b7d0..3729e30 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -546,8 +546,8 @@ def _get_convex_hull(slice_, info_):
     y0 = slice_[2, 0] * np.cos(np.deg2rad(slice_[1, 0]))
     y1 = slice_[2, -1] * np.cos(np.deg2rad(slice_[1, -1]))
     lamb = x0 / (x0 - x1)
-    approx_ws = lamb * slice_[0, 0] + (1 - lamb) * slice_[0, -1]
-    approx_bsp = lamb * y0 + (1 - lamb) * y1
+    approx_ws = slice_[0, 0] + lamb * (slice_[0, -1] - slice_[0, 0])
+    approx_bsp = y0 + lamb * (y1 - y0)
 
     slice_ = np.column_stack(
         [[approx_ws, 0, approx_bsp], slice_, [approx_ws, 360, approx_bsp]]
-- 
2.43.0


From 03f043fa04c952ce44853a3172c6fa2bc4139e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 090/108] fix: the weather was not added to the measurements
 but below them

---
 hrosailing/pipeline/expander.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/hrosailing/pipeline/expander.py b/hrosailing/pipeline/expander.py
index 74fe6f8..133bcc2 100644
--- a/hrosailing/pipeline/expander.py
+++ b/hrosailing/pipeline/expander.py
@@ -96,13 +96,13 @@ class WeatherExpander(Expander):
         weather_data.hrosailing_standard_format()
         weather_data = self._mark_duplicate_keys(weather_data, data)
 
-        data.update(weather_data)
+        for key in weather_data.keys():
+            data.extend(key, weather_data[key])
         data.hrosailing_standard_format()
         self.set_statistics(data)
         return data
 
     def _get_weather(self, data):
-        weather_keys = None
         none_idxs = []
         weather_list = []
         for idx, (datetime, lat, lon) in enumerate(
@@ -111,23 +111,28 @@ class WeatherExpander(Expander):
             try:
                 weather = self._weather_model.get_weather([datetime, lat, lon])
                 weather_list.append(weather)
-                if weather_keys is None:
-                    weather_keys = weather.keys()
             except ValueError:
                 if self._exception_handling_mode == "ignore":
-                    weather_list.append(None)
+                    weather_list.append({})
                 none_idxs.append(idx)
 
         if self._exception_handling_mode == "delete":
             data.delete(none_idxs)
-        else:
-            for idx in none_idxs:
-                weather_list[idx] = {key: None for key in weather_keys}
 
-        return Data.concatenate(weather_list)
+        weather_keys = dict.fromkeys(
+            key for weather in weather_list for key in weather
+        )
+        return Data.from_dict(
+            {
+                key: [weather.get(key) for weather in weather_list]
+                for key in weather_keys
+            }
+        )
 
     def _mark_duplicate_keys(self, weather_data, data):
         for key in list(weather_data.keys()):
-            if key in data.keys():
-                weather_data.rename(key, f"{key}(duplicate)")
+            new_key = key
+            while new_key in data:
+                new_key = f"{new_key}(duplicate)"
+            weather_data.rename(key, new_key)
         return weather_data
-- 
2.43.0


From b065451246147e51f787df1ce8b697713a0a3636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 091/108] fix: weather given partly as whole numbers could not
 be added to measurements

---
 hrosailing/pipeline/expander.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/expander.py b/hrosailing/pipeline/expander.py
index 133bcc2..0bf5b1a 100644
--- a/hrosailing/pipeline/expander.py
+++ b/hrosailing/pipeline/expander.py
@@ -9,6 +9,7 @@ Also contains predefined and usable expanders:
 """
 
 from abc import ABC, abstractmethod
+from numbers import Real
 
 from hrosailing.core.data import Data
 from hrosailing.core.statistics import ComponentWithStatistics
@@ -124,7 +125,7 @@ class WeatherExpander(Expander):
         )
         return Data.from_dict(
             {
-                key: [weather.get(key) for weather in weather_list]
+                key: [_unify(weather.get(key)) for weather in weather_list]
                 for key in weather_keys
             }
         )
@@ -136,3 +137,10 @@ class WeatherExpander(Expander):
                 new_key = f"{new_key}(duplicate)"
             weather_data.rename(key, new_key)
         return weather_data
+
+
+def _unify(value):
+    # the weather might be given by different types of numbers
+    if isinstance(value, Real) and not isinstance(value, bool):
+        return float(value)
+    return value
-- 
2.43.0


From 5651a2a99b4b7174cc2d4b1fdae82ec710cf48eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 092/108] fix: weather models shared their times and attributes
 with their users

---
 hrosailing/models/weather_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 84b146c..6f70f09 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -84,10 +84,10 @@ class GriddedWeatherModel(WeatherModel):
     """
 
     def __init__(self, data, times, lats, lons, attrs):
-        self._times = times
+        self._times = list(times)
         self._lats = np.array(lats)
         self._lons = np.array(lons)
-        self._attrs = attrs
+        self._attrs = list(attrs)
         self._data = np.array(data)
 
     @property
@@ -97,7 +97,7 @@ class GriddedWeatherModel(WeatherModel):
         a `numpy.ndarray` containing the latitudes and a `numpy.ndarray`
         containing the longitudes.
         """
-        return self._times, self._lats.copy(), self._lons.copy()
+        return self._times.copy(), self._lats.copy(), self._lons.copy()
 
     @property
     def data(self):
@@ -113,7 +113,7 @@ class GriddedWeatherModel(WeatherModel):
         The attributes of the weather model. Each attribute corresponds to
         a column of `self.data`.
         """
-        return self._attrs
+        return self._attrs.copy()
 
     def get_weather(self, point):
         """Given a space-time point, uses the available weather model
-- 
2.43.0


From 52be7959e10dff1224977657201fd445dc421519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 093/108] fix: polynomial model functions accept whole-number
 winds with fractional parameters

---
 hrosailing/core/modelfunctions/_models2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/modelfunctions/_models2d.py b/hrosailing/core/modelfunctions/_models2d.py
index 208d8f4..22edf10 100644
--- a/hrosailing/core/modelfunctions/_models2d.py
+++ b/hrosailing/core/modelfunctions/_models2d.py
@@ -10,7 +10,7 @@ def polynomial_function(x, *params, deg=1):
     """
     val = 0
     for i in range(deg + 1):
-        val += params[i] * np.power(x, i)
+        val = val + params[i] * np.power(x, i)
 
     return val
 
-- 
2.43.0


From 9b15744a92f2c455b95c9ed37dd594d7e7f63e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 094/108] fix: print the last five columns of long tables below
 the last five wind speeds

---
 hrosailing/polardiagram/_polardiagramtable.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index 786f0c5..2182f99 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -207,7 +207,10 @@ class PolarDiagramTable(PolarDiagram):
             table.append("\n")
 
     def _create_long_table(self, table, wind):
-        bsps = self.boat_speeds
+        # only the first and last five wind speeds are shown
+        bsps = np.column_stack(
+            (self.boat_speeds[:, :5], self.boat_speeds[:, -5:])
+        )
 
         for i, ws in enumerate(wind):
             if i == 5:
-- 
2.43.0


From f0bee88fb3eb65324bc4dd650c703459b656e078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 095/108] fix: count the maximal weight in the last tenth of
 the weigher statistics

---
 hrosailing/processing/weigher.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 3e3f7bb..8d3e165 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -137,6 +137,8 @@ class Weigher(ComponentWithStatistics, ABC):
 
         def get_quantiles(args):
             minw, span = args
+            # the last bound is the maximum, also if the sum is rounded
+            bounds = [minw + span * i / 10 for i in range(10)] + [maxw]
             return [
                 round(
                     100
@@ -144,11 +146,7 @@ class Weigher(ComponentWithStatistics, ABC):
                         [
                             w
                             for w in weights
-                            if (
-                                minw + span * (i + 1) / 10
-                                >= w
-                                >= minw + span * i / 10
-                            )
+                            if bounds[i + 1] >= w >= bounds[i]
                         ]
                     )
                     / len(weights),
-- 
2.43.0


From 9c5d5153d41abd806e3861847b9351e6447630a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:10 +0000
Subject: [PATCH 096/108] fix: do not normalise the caller's wind angle in
 place when evaluating a point cloud

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index e6f0c8b..5f4d2b8 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -205,7 +205,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         if np.any((ws <= 0)):
             raise ValueError("`ws` is non-positive")
 
-        wa %= 360
+        wa = wa % 360
 
         cloud = self.points
         point = cloud[np.logical_and(cloud[:, 0] == ws, cloud[:, 1] == wa)]
-- 
2.43.0


From f20043d06de842e242204e32d951547ea827a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 097/108] fix: keep fractions of a second and time zones when
 writing gridded weather to a file

---
 hrosailing/models/weather_model.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 6f70f09..c472cd5 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -224,7 +224,7 @@ class GriddedWeatherModel(WeatherModel):
         """
         with open(path, "r", encoding="utf-8") as file:
             data, times, *rest = json.loads(file.read())
-            times = [datetime.strptime(t, "%d.%m.%Y:%X") for t in times]
+            times = [_read_time(t) for t in times]
             return cls(data, times, *rest)
 
 
@@ -237,6 +237,8 @@ class _GriddedWeatherModelEncoder(json.JSONEncoder):
             return [data, times, lats, lons, attrs]
         if isinstance(o, np.ndarray):
             return o.tolist()
+        if isinstance(o, datetime) and (o.microsecond or o.tzinfo):
+            return o.isoformat()
         if installed_pandas and isinstance(o, pd.Timestamp):
             return o.strftime("%d.%m.%Y:%X")
         if isinstance(o, datetime):
@@ -246,6 +248,13 @@ class _GriddedWeatherModelEncoder(json.JSONEncoder):
         )
 
 
+def _read_time(time):
+    try:
+        return datetime.strptime(time, "%d.%m.%Y:%X")
+    except ValueError:
+        return datetime.fromisoformat(time)
+
+
 def _recursive_affine_interpolation(point, grid, get_data):
     fst = tuple(dimension[0] for dimension in grid)
     lst = tuple(dimension[-1] for dimension in grid)
-- 
2.43.0


From ee3526183b905e52491e2bb60550708cf1c06879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 098/108] fix: correct integer wind angles by fractional shifts
 without truncating them

---
 hrosailing/models/influencemodel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/models/influencemodel.py b/hrosailing/models/influencemodel.py
index 67e247f..14c1f3b 100644
--- a/hrosailing/models/influencemodel.py
+++ b/hrosailing/models/influencemodel.py
@@ -175,6 +175,7 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
         `InfluenceModel.remove_influence`
         """
         wind_data = _get_true_wind_data(data)
+        wind_data = wind_data.astype(np.result_type(wind_data, float))
         wa = wind_data[:, 1]
         wind_data[:, 1] = (wa - self._wa_shift) % 360
         return wind_data
-- 
2.43.0


From d94f1fcd69cb46e8eaaa389c205485a657984c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:22 +0000
Subject: [PATCH 099/108] fix: PolarDiagramCurve.to_csv leaves the file alone
 if the curve has no name

---
 hrosailing/polardiagram/_polardiagramcurve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagramcurve.py b/hrosailing/polardiagram/_polardiagramcurve.py
index c8eb192..56f96ab 100644
--- a/hrosailing/polardiagram/_polardiagramcurve.py
+++ b/hrosailing/polardiagram/_polardiagramcurve.py
@@ -192,10 +192,13 @@ class PolarDiagramCurve(PolarDiagram):
         OSError
             If no permission to write is given for file.
         """
+        # fails for callables without a name, before the file is overwritten
+        function = self.curve.__name__
+
         with open(csv_path, "w", newline="", encoding="utf-8") as file:
             csv_writer = csv.writer(file, delimiter=":")
             csv_writer.writerow([self.__class__.__name__])
-            csv_writer.writerow(["Function"] + [self.curve.__name__])
+            csv_writer.writerow(["Function"] + [function])
             csv_writer.writerow(["Radians"] + [str(self.radians)])
             csv_writer.writerow(["Parameters"] + list(self.parameters))
 
-- 
2.43.0


From e08c8f74e537170e43c37af3062f78ad1aec1f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:02 +0000
Subject: [PATCH 100/108] fix: Data.update refuses unsuitable types before it
 changes anything

---
 hrosailing/core/data.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index b540f35..a61e3e8 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -158,15 +158,10 @@ class Data:
         data : list
             Data that will be appended to the given column.
         """
-        data_type = self._get_type(data)
+        data_type = self._check_type(key, data)
         if key in self._data:
             if self._types[key] is None:
                 self._types[key] = data_type
-            if data_type is not None and data_type != self._types[key]:
-                raise ValueError(
-                    f"data should be of type {self._types[key]}"
-                    f" but has type {data_type}"
-                )
             self._data[key].extend(data)
             self._max_len = max(self._max_len, len(self._data[key]))
         else:
@@ -176,6 +171,18 @@ class Data:
             self._types[key] = data_type
             self._max_len = max(self._max_len, len(self._data[key]))
 
+    def _check_type(self, key, data):
+        data_type = self._get_type(data)
+        expected_type = self._types.get(key)
+        if None not in (data_type, expected_type) and (
+            data_type != expected_type
+        ):
+            raise ValueError(
+                f"data should be of type {expected_type}"
+                f" but has type {data_type}"
+            )
+        return data_type
+
     def update(self, data_dict, compress=False):
         """
         Extends the data according to given data and fills missing
@@ -195,6 +202,9 @@ class Data:
             return
         if not isinstance(data_dict, dict):
             raise TypeError("`data_dict` has to be of type `Data` or `dict`")
+        # refuse unsuitable entries before anything is changed
+        for key, val in data_dict.items():
+            self._check_type(key, val if isinstance(val, list) else [val])
         self.fill(
             self._max_len, itertools.chain(data_dict.keys(), self.keys())
         )
-- 
2.43.0


From a48ef27c8c654540316bb97ff8d5de71be319b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:02 +0000
Subject: [PATCH 101/108] fix: Data.delete checks a list of keys before
 deleting the first ones

---
 hrosailing/core/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index a61e3e8..0960d39 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -330,6 +330,9 @@ class Data:
             if len(key) == 0:
                 return
             if isinstance(key[0], str):
+                for k in key:
+                    if k not in self._data:
+                        raise KeyError(k)
                 for k in key:
                     self.delete(k)
             if isinstance(key[0], int):
-- 
2.43.0


From f378bd1630ff3285bd9d16dd975b98cf5dc3fc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:02 +0000
Subject: [PATCH 102/108] fix: WeightedPoints.extend is all or nothing if the
 weights do not fit

---
 hrosailing/core/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 0960d39..354c456 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -672,6 +672,7 @@ class WeightedPoints:
         other : WeightedPoints
             Points to be appended.
         """
+        weights = np.concatenate([self.weights, other.weights])
 
         if isinstance(self.data, dict):
             self.data = {
@@ -684,4 +685,4 @@ class WeightedPoints:
         else:
             self.data = np.row_stack([self.data, other.data])
 
-        self.weights = np.concatenate([self.weights, other.weights])
+        self.weights = weights
-- 
2.43.0


From 20ff6a69beb04ce73714c3db6e556fd92f5d5c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:54 +0000
Subject: [PATCH 103/108] fix: Data.update accepts any type for columns without
 entries, as before the check was moved

---
 hrosailing/core/data.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 354c456..bd0b1a3 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -158,7 +158,7 @@ class Data:
         data : list
             Data that will be appended to the given column.
         """
-        data_type = self._check_type(key, data)
+        data_type = self._check_type(data, self._types.get(key))
         if key in self._data:
             if self._types[key] is None:
                 self._types[key] = data_type
@@ -171,9 +171,8 @@ class Data:
             self._types[key] = data_type
             self._max_len = max(self._max_len, len(self._data[key]))
 
-    def _check_type(self, key, data):
+    def _check_type(self, data, expected_type):
         data_type = self._get_type(data)
-        expected_type = self._types.get(key)
         if None not in (data_type, expected_type) and (
             data_type != expected_type
         ):
@@ -204,7 +203,10 @@ class Data:
             raise TypeError("`data_dict` has to be of type `Data` or `dict`")
         # refuse unsuitable entries before anything is changed
         for key, val in data_dict.items():
-            self._check_type(key, val if isinstance(val, list) else [val])
+            self._check_type(
+                val if isinstance(val, list) else [val],
+                self._get_type(self._data.get(key, [])),
+            )
         self.fill(
             self._max_len, itertools.chain(data_dict.keys(), self.keys())
         )
-- 
2.43.0


From c913a3ead207a1ff4f355afb4afc901dc8bb1fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:51 +0000
Subject: [PATCH 104/108] fix: WeightedPoints takes scalar weights of any
 number type

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index bd0b1a3..95d09da 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -639,7 +639,7 @@ class WeightedPoints:
 
     def __init__(self, data, weights):
         self.data = data
-        if isinstance(weights, (float, int)):
+        if np.ndim(weights) == 0:
             if isinstance(data, dict):
                 length = len(list(data.values())[0])
             elif isinstance(data, Data):
-- 
2.43.0


From b386c1cee151ea0790f425f7ba5c772357545e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:51 +0000
Subject: [PATCH 105/108] fix: spread of negative boat speeds in the conforming
 quality report

---
 hrosailing/pipeline/quality_assurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/quality_assurance.py b/hrosailing/pipeline/quality_assurance.py
index 74e6cc1..621d4a5 100644
--- a/hrosailing/pipeline/quality_assurance.py
+++ b/hrosailing/pipeline/quality_assurance.py
@@ -121,7 +121,7 @@ class ComformingQualityAssurance(QualityAssurance):
         for ws, wa, bsp in test_data:
             test_tuple = round(ws), round(wa)
             if test_tuple not in tested_tuples:
-                tested_tuples[test_tuple] = (np.inf, 0)
+                tested_tuples[test_tuple] = (np.inf, -np.inf)
             prev_min, prev_max = tested_tuples[test_tuple]
             tested_tuples[test_tuple] = min(bsp, prev_min), max(bsp, prev_max)
 
-- 
2.43.0


From defff4e6e61edd230b5f87b2a66c4f2886282033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:24 +0000
Subject: [PATCH 106/108] fix: weather service model keeps its times when the
 last place has no data

---
 hrosailing/models/weather_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index c472cd5..ddaa9ad 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -180,10 +180,11 @@ class GriddedWeatherModel(WeatherModel):
             for lon in lons:
                 loc = meteostat.Point(lat, lon, 0)
                 data = meteostat.Hourly(loc, start_time, end_time).fetch()
-                times = data.index.values
                 np_data = data[keys].to_numpy()
                 if np_data.shape[0] == 0:
                     np_data = []
+                else:
+                    times = data.index.values
                 lon_data.append(np_data)
             max_len = max(len(d) for d in lon_data)
             lon_data = [
-- 
2.43.0


From 9de0e7bc3f59fc4b10e41893cd942bfe899a9843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:42 +0000
Subject: [PATCH 107/108] fix: repr of CylindricMeanWeigher without a norm

---
 hrosailing/processing/weigher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 8d3e165..bd378a3 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -266,7 +266,7 @@ class CylindricMeanWeigher(Weigher):
     def __repr__(self):
         return (
             f"CylindricMeanWeigher(radius={self._radius}, "
-            f"norm={self._norm.__name__})"
+            f"norm={self._norm and self._norm.__name__})"
         )
 
     def weigh(self, points):
-- 
2.43.0


From bae65a49aa182944b2f8e6a623b8ff498f9e303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:41 +0000
Subject: [PATCH 108/108] fix: read multi-sail diagrams written into a single
 file, as in the examples

---
 .../polardiagram/_polardiagrammultisails.py   | 28 ++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrammultisails.py b/hrosailing/polardiagram/_polardiagrammultisails.py
index 750d3cf..0e125ea 100644
--- a/hrosailing/polardiagram/_polardiagrammultisails.py
+++ b/hrosailing/polardiagram/_polardiagrammultisails.py
@@ -2,6 +2,7 @@
 
 import csv
 import os
+from ast import literal_eval
 
 import numpy as np
 
@@ -198,13 +199,38 @@ class PolarDiagramMultiSails(PolarDiagram):
     def __from_csv__(cls, file):
         path = file.name
         csv_reader = csv.reader(file, delimiter=":")
-        sails = next(csv_reader)[1:]
+        first_row = next(csv_reader)
+        if first_row == ["TWS"]:
+            return cls._from_single_csv(file)
+
+        sails = first_row[1:]
         diagrams = []
         for i, sail in enumerate(sails):
             sub_path = PolarDiagramMultiSails._get_sub_csv_path(path, i)
             diagrams.append(from_csv(sub_path))
         return PolarDiagramMultiSails(diagrams, sails)
 
+    @classmethod
+    def _from_single_csv(cls, file):
+        rows = list(csv.reader(file, delimiter=","))
+        ws_res = [literal_eval(ws) for ws in rows[0]]
+        sails, diagrams = [], []
+
+        # name, "TWA", wind angles, "BSP" and the boat speeds of each sail
+        start = 1
+        while start < len(rows):
+            wa_res = [literal_eval(wa) for wa in rows[start + 2]]
+            end = start + 4 + len(wa_res)
+            bsps = [
+                [literal_eval(bsp) for bsp in row]
+                for row in rows[start + 4 : end]
+            ]
+            sails.append(",".join(rows[start]))
+            diagrams.append(PolarDiagramTable(ws_res, wa_res, bsps))
+            start = end
+
+        return cls(diagrams, sails)
+
     def symmetrize(self):
         """Constructs a symmetric version of the polar diagram, by
         mirroring each `PolarDiagramTable` at the 0° - 180° axis and
-- 
2.43.0

