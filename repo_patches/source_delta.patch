From 97c59f7b9c10caf1fb83f816cc0f45e6159a5c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 01/13] fix: keep GeodesicIntegrator.results in step with its
 state when the stability check raises

---
 src/einsteinpy/integrators/fantasy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/integrators/fantasy.py b/src/einsteinpy/integrators/fantasy.py
index 042d003..f74c29a 100644
--- a/src/einsteinpy/integrators/fantasy.py
+++ b/src/einsteinpy/integrators/fantasy.py
@@ -265,6 +265,10 @@ class GeodesicIntegrator:
 
         arr = self.integrator(rl[0], rl[1], rl[2], rl[3], self.delta)
 
+        # Record the step before the stability check, which calls back into
+        # ``metric`` and may raise: a step is either recorded as a whole or
+        # did not happen
+        self.results.append(arr)
         self.res_list = arr
         self.step_num += 1
 
@@ -288,5 +292,3 @@ class GeodesicIntegrator:
                     f"Numerical error has exceeded specified tolerance at step = {self.step_num}.",
                     RuntimeWarning,
                 )
-
-        self.results.append(self.res_list)
-- 
2.43.0


From c9d7b28e40066fef5647d304dfe81582c9375258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 02/13] fix: RK4naive never enforced t_bound because its
 direction was always 0

---
 src/einsteinpy/integrators/runge_kutta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/integrators/runge_kutta.py b/src/einsteinpy/integrators/runge_kutta.py
index 331fa77..9968294 100644
--- a/src/einsteinpy/integrators/runge_kutta.py
+++ b/src/einsteinpy/integrators/runge_kutta.py
@@ -32,7 +32,7 @@ class RK4naive:
         self.t_bound = t_bound
         self.step_size = stepsize
         self._fun = fun
-        self.direction = 1 * (self.t_bound >= t0) - 1 * (not self.t_bound < t0)
+        self.direction = 1 * (self.t_bound >= t0) - 1 * (self.t_bound < t0)
 
     def step(self):
         """
-- 
2.43.0


From 9a1a789c48fe8db10d0db5fc5c5c9404e715def0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 03/13] fix: RK45.step swallowed a RuntimeError raised by the
 user's function

---
 src/einsteinpy/integrators/runge_kutta.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/integrators/runge_kutta.py b/src/einsteinpy/integrators/runge_kutta.py
index 9968294..e6ba95c 100644
--- a/src/einsteinpy/integrators/runge_kutta.py
+++ b/src/einsteinpy/integrators/runge_kutta.py
@@ -105,10 +105,11 @@ class RK45(integrate.RK45):
         Updates the value of self.t and self.y
         """
 
-        try:
-            super(RK45, self).step()
-        except RuntimeError:
+        if self.status != "running":
             warnings.warn(
                 "Attempt to step on a failed or finished solver. (Invalid Value or out of bounds of t_bound)",
                 RuntimeWarning,
             )
+            return
+
+        super(RK45, self).step()
-- 
2.43.0


From 38181726496b7f1b9f527118a3e61c635e298cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 04/13] fix: objects built with default charge, radius, mass or
 spin shared one mutable default

---
 src/einsteinpy/bodies.py             | 10 +++++-----
 src/einsteinpy/metric/base_metric.py |  8 ++++----
 src/einsteinpy/metric/kerrnewman.py  |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/einsteinpy/bodies.py b/src/einsteinpy/bodies.py
index e8d52fb..7075027 100644
--- a/src/einsteinpy/bodies.py
+++ b/src/einsteinpy/bodies.py
@@ -15,7 +15,7 @@ and a way to define new bodies (:py:class:`~Body` class).
 Data references can be found in :py:mod:`~einsteinpy.constant`
 """
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from textwrap import dedent
 from typing import Union
 
@@ -61,9 +61,9 @@ class Body:
     """
 
     name: str = "Generic Body"
-    mass: u.kg = 0 * u.kg
-    q: u.C = 0 * u.C
-    R: u.km = 0 * u.km
+    mass: u.kg = field(default_factory=lambda: 0 * u.kg)
+    q: u.C = field(default_factory=lambda: 0 * u.C)
+    R: u.km = field(default_factory=lambda: 0 * u.km)
     coords: Union[
         CartesianDifferential, SphericalDifferential, BoyerLindquistDifferential, None
     ] = None
@@ -98,7 +98,7 @@ class Body:
     __repr__ = __str__
 
 
-Sun = Body(name="Sun", mass=Solar_Mass, R=R_sun, parent=None)
+Sun = Body(name="Sun", mass=Solar_Mass.copy(), R=R_sun.copy(), parent=None)
 
 
 Earth = Body(name="Earth", mass=5.97219e24 * u.kg, R=6731 * u.km, parent=Sun)
diff --git a/src/einsteinpy/metric/base_metric.py b/src/einsteinpy/metric/base_metric.py
index 7a36242..5a8887f 100644
--- a/src/einsteinpy/metric/base_metric.py
+++ b/src/einsteinpy/metric/base_metric.py
@@ -43,8 +43,8 @@ class BaseMetric:
         self,
         coords,
         M,
-        a=0 * u.one,
-        Q=0 * u.C,
+        a=None,
+        Q=None,
         name="Base Metric",
         metric_cov=None,
         christoffels=None,
@@ -93,8 +93,8 @@ class BaseMetric:
         self.name = name
         self.coords = coords
         self.M = M
-        self.a = a
-        self.Q = Q
+        self.a = 0 * u.one if a is None else a
+        self.Q = 0 * u.C if Q is None else Q
         self.metric_cov = metric_cov
         self.christoffels = christoffels
         self.f_vec = f_vec
diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 69d2c88..d1396b7 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -17,7 +17,7 @@ class KerrNewman(BaseMetric):
     """
 
     @u.quantity_input(M=u.kg, a=u.one, Q=u.C, q=u.C / u.kg)
-    def __init__(self, coords, M, a, Q, q=0.0 * u.C / u.kg):
+    def __init__(self, coords, M, a, Q, q=None):
         """
         Constructor
 
@@ -46,7 +46,7 @@ class KerrNewman(BaseMetric):
             christoffels=self._christoffels,
             f_vec=self._f_vec,
         )
-        self.q = q
+        self.q = 0.0 * u.C / u.kg if q is None else q
         # Precomputed list of tuples, containing indices \
         # of non-zero Christoffel Symbols for Kerr-Newman Metric \
         # in Boyer-Lindquist Coordinates
-- 
2.43.0


From 0bd0ef9baa6120ce6faf0489788dd40253c967c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 05/13] fix: StaticGeodesicPlotter saved and labelled whichever
 figure pyplot had current

---
 src/einsteinpy/plotting/geodesic/static.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index 2de182e..5d8cd29 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -384,7 +384,7 @@ class StaticGeodesicPlotter:
         fontsize = max(figsize) + 1.5
         if self.ax.name == "3d":
             self.ax.view_init(azim=azim, elev=elev)
-        plt.legend(prop={"size": fontsize})
+        self.ax.legend(prop={"size": fontsize})
 
         plt.show()
 
@@ -411,4 +411,6 @@ class StaticGeodesicPlotter:
         if self.ax.name != "3d" and name == "Geodesic.png":
             name = "Parametric.png"
 
+        # pyplot saves its current figure, which another plotter may have set
+        plt.figure(self.fig)
         plt.savefig(name)
-- 
2.43.0


From 4c79c0d5a07c86581fd30965d411a394854624b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 06/13] fix: order of a tensor's functions depended on
 PYTHONHASHSEED

---
 src/einsteinpy/symbolic/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index 586b118..beb40d1 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -362,6 +362,8 @@ class BaseRelativityTensor(Tensor):
                         self.arr.atoms(UndefinedFunction)
                     )
                 ]
+                # Set order depends on the hash seed of the process
+                self.functions.sort(key=str)
             else:
                 self.functions = list(functions)
 
-- 
2.43.0


From 5bc83487aaa96816fdc7d455938038eea0422c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 07/13] fix: velocity() returned another thread's time
 component when a coordinate object was shared

---
 src/einsteinpy/coordinates/differential.py | 33 ++++++++++++++--------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/einsteinpy/coordinates/differential.py b/src/einsteinpy/coordinates/differential.py
index 3736f56..ea98843 100644
--- a/src/einsteinpy/coordinates/differential.py
+++ b/src/einsteinpy/coordinates/differential.py
@@ -112,7 +112,9 @@ class CartesianDifferential(CartesianConversion):
             other than Cartesian Coordinates.
 
         """
-        g = args[0]
+        self._v_t = self._timelike_component(args[0])
+
+    def _timelike_component(self, g):
         if self.system != g.coords.system:
             raise CoordinateError(
                 f"Metric object has been instantiated with a coordinate system, ( {g.coords.system} )"
@@ -123,7 +125,7 @@ class CartesianDifferential(CartesianConversion):
 
         v_t = v0(g_cov_mat, self.v_x.si.value, self.v_y.si.value, self.v_z.si.value)
 
-        self._v_t = v_t * u.m / u.s
+        return v_t * u.m / u.s
 
     def velocity(self, metric):
         """
@@ -140,11 +142,12 @@ class CartesianDifferential(CartesianConversion):
             4-Tuple, containing Velocity 4-Vector in SI units
 
         """
+        v_t = self._timelike_component(metric)
         # Setting _v_t
-        self.v_t = (metric,)
+        self._v_t = v_t
 
         return (
-            self._v_t.value,
+            v_t.value,
             self.v_x.si.value,
             self.v_y.si.value,
             self.v_z.si.value,
@@ -324,7 +327,9 @@ class SphericalDifferential(SphericalConversion):
             other than Sperical Polar Coordinates.
 
         """
-        g = args[0]
+        self._v_t = self._timelike_component(args[0])
+
+    def _timelike_component(self, g):
         if self.system != g.coords.system:
             raise CoordinateError(
                 f"Metric object has been instantiated with a coordinate system, ( {g.coords.system} )"
@@ -335,7 +340,7 @@ class SphericalDifferential(SphericalConversion):
 
         v_t = v0(g_cov_mat, self.v_r.si.value, self.v_th.si.value, self.v_p.si.value)
 
-        self._v_t = v_t * u.m / u.s
+        return v_t * u.m / u.s
 
     def velocity(self, metric):
         """
@@ -352,11 +357,12 @@ class SphericalDifferential(SphericalConversion):
             4-Tuple, containing Velocity 4-Vector in SI units
 
         """
+        v_t = self._timelike_component(metric)
         # Setting _v_t
-        self.v_t = (metric,)
+        self._v_t = v_t
 
         return (
-            self._v_t.value,
+            v_t.value,
             self.v_r.si.value,
             self.v_th.si.value,
             self.v_p.si.value,
@@ -536,7 +542,9 @@ class BoyerLindquistDifferential(BoyerLindquistConversion):
             other than Boyer-Lindquist Coordinates.
 
         """
-        g = args[0]
+        self._v_t = self._timelike_component(args[0])
+
+    def _timelike_component(self, g):
         if self.system != g.coords.system:
             raise CoordinateError(
                 "Metric object has been instantiated with a coordinate system, ( {g.coords.system} )"
@@ -547,7 +555,7 @@ class BoyerLindquistDifferential(BoyerLindquistConversion):
 
         v_t = v0(g_cov_mat, self.v_r.si.value, self.v_th.si.value, self.v_p.si.value)
 
-        self._v_t = v_t * u.m / u.s
+        return v_t * u.m / u.s
 
     def velocity(self, metric):
         """
@@ -564,11 +572,12 @@ class BoyerLindquistDifferential(BoyerLindquistConversion):
             4-Tuple, containing Velocity 4-Vector in SI units
 
         """
+        v_t = self._timelike_component(metric)
         # Setting _v_t
-        self.v_t = (metric,)
+        self._v_t = v_t
 
         return (
-            self._v_t.value,
+            v_t.value,
             self.v_r.si.value,
             self.v_th.si.value,
             self.v_p.si.value,
-- 
2.43.0


From bb2314e751868adb3ed69681b7d01196e26a4f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 08/13] fix: a symbolic constant lost or overwrote its
 descriptive name when copied, pickled or redefined

---
 src/einsteinpy/symbolic/constants.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/constants.py b/src/einsteinpy/symbolic/constants.py
index d704211..c652cab 100644
--- a/src/einsteinpy/symbolic/constants.py
+++ b/src/einsteinpy/symbolic/constants.py
@@ -23,10 +23,17 @@ class SymbolicConstant(Symbol):
 
         """
 
-        instance = super(SymbolicConstant, cls).__new__(cls, name, **assumptions)
+        # Symbol.__new__ would return one cached instance per name, whose
+        # descriptive name the next constant of that name would overwrite
+        cls._sanitize(assumptions, cls)
+        instance = cls.__xnew__(cls, name, **assumptions)
         instance._descriptive_name = descriptive_name
         return instance
 
+    def __getnewargs_ex__(self):
+        args, assumptions = super(SymbolicConstant, self).__getnewargs_ex__()
+        return (*args, self._descriptive_name), assumptions
+
     @property
     def descriptive_name(self):
         """
-- 
2.43.0


From 0d6176f83e7335b03db9e3789110cd1e73ef3806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 09/13] fix: TransformationMatrix could not be copied or
 pickled

---
 src/einsteinpy/symbolic/helpers.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/einsteinpy/symbolic/helpers.py b/src/einsteinpy/symbolic/helpers.py
index cd21b89..d882d9e 100644
--- a/src/einsteinpy/symbolic/helpers.py
+++ b/src/einsteinpy/symbolic/helpers.py
@@ -133,6 +133,20 @@ class TransformationMatrix(ImmutableDenseNDimArray):
 
         return obj
 
+    def __reduce__(self):
+        # sympy rebuilds its arrays from their entries and shape alone
+        return (
+            type(self),
+            (
+                self.tolist(),
+                self.old_coords,
+                self.new_coords,
+                self.shape,
+                self.old2new,
+                self.new2old,
+            ),
+        )
+
     @classmethod
     def from_new2old(cls, old_coords, new_coords, new2old, **kwargs):
         """
-- 
2.43.0


From d8024ccb52ca5eea5f0bc6d09846400fe03ef41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 10/13] fix: plot2D with invalid coordinates left a partial
 drawing behind

---
 src/einsteinpy/plotting/geodesic/interactive.py | 9 +++++----
 src/einsteinpy/plotting/geodesic/static.py      | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/einsteinpy/plotting/geodesic/interactive.py b/src/einsteinpy/plotting/geodesic/interactive.py
index fef2ed7..ba4e29f 100644
--- a/src/einsteinpy/plotting/geodesic/interactive.py
+++ b/src/einsteinpy/plotting/geodesic/interactive.py
@@ -247,10 +247,6 @@ class InteractiveGeodesicPlotter:
             If indices in ``coordinates`` do not take values from ``(1, 2, 3)``
 
         """
-        a = geodesic.metric_params[0]
-        self._draw_bh_2D(a, figsize)
-
-        traj = geodesic.trajectory[1]
         A = coordinates[0]
         B = coordinates[1]
 
@@ -262,6 +258,11 @@ class InteractiveGeodesicPlotter:
                 """
             )
 
+        a = geodesic.metric_params[0]
+        self._draw_bh_2D(a, figsize)
+
+        traj = geodesic.trajectory[1]
+
         self.fig.add_trace(
             go.Scatter(
                 x=traj[:, A],
diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index 5d8cd29..5199678 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -243,10 +243,6 @@ class StaticGeodesicPlotter:
             If indices in ``coordinates`` do not take values from ``(1, 2, 3)``
 
         """
-        a = geodesic.metric_params[0]
-        self._draw_bh_2D(a, figsize)
-
-        traj = geodesic.trajectory[1]
         A = coordinates[0]
         B = coordinates[1]
 
@@ -258,6 +254,11 @@ class StaticGeodesicPlotter:
                 """
             )
 
+        a = geodesic.metric_params[0]
+        self._draw_bh_2D(a, figsize)
+
+        traj = geodesic.trajectory[1]
+
         fontsize = max(figsize) + 3
         self.ax.set_xlabel(f"$X{coordinates[0]}\\:(GM/c^2)$", fontsize=fontsize)
         self.ax.set_ylabel(f"$X{coordinates[1]}\\:(GM/c^2)$", fontsize=fontsize)
-- 
2.43.0


From ff66df302bdae72131f582bc8e1fc28b703ce0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 11/13] fix: tensors shared the caller's list of symbols and
 handed it out again

A tensor kept the very list passed as syms, passed it on to every tensor derived
from it and returned it from symbols(), so editing a returned list changed the
tensor and all its relatives. symbols() is documented to return a tuple.
---
 src/einsteinpy/symbolic/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index beb40d1..f8174ae 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -339,7 +339,7 @@ class BaseRelativityTensor(Tensor):
         # Due to the issue of cyclic imports, would find a workaround
         self._parent_metric = parent_metric
         if isinstance(syms, (list, tuple)):
-            self.syms = syms
+            self.syms = tuple(syms)
             self.dims = len(self.syms)
         else:
             raise TypeError("syms should be a list or tuple")
-- 
2.43.0


From 1786c745a00292217ec057cc942267942abb19e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 12/13] fix: Geodesic.trajectory handed out the stored arrays

Editing the arrays it returned changed what every later access, plot and
animation of the same geodesic showed.
---
 src/einsteinpy/geodesic/geodesic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/geodesic/geodesic.py b/src/einsteinpy/geodesic/geodesic.py
index d15c9b9..5f2e113 100644
--- a/src/einsteinpy/geodesic/geodesic.py
+++ b/src/einsteinpy/geodesic/geodesic.py
@@ -147,7 +147,8 @@ class Geodesic:
         Returns the trajectory of the test particle
 
         """
-        return self._trajectory
+        steps, vecs = self._trajectory
+        return steps.copy(), vecs.copy()
 
     def calculate_trajectory(self, **kwargs):
         """
-- 
2.43.0


From 49bddd1e1981b071c30770c02fe44ac570c4fa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:33 +0000
Subject: [PATCH 13/13] fix: order of a tensor's variables depended on
 PYTHONHASHSEED where symbols of one name differ in assumptions

---
 src/einsteinpy/symbolic/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index f8174ae..687cef1 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -352,7 +352,8 @@ class BaseRelativityTensor(Tensor):
                 self.variables = [
                     v for v in self.arr.free_symbols if v not in self.syms
                 ]
-                self.variables.sort(key=(lambda var: var.name))
+                # Symbols of one name may differ in their assumptions
+                self.variables.sort(key=(lambda var: (var.name, sympy.srepr(var))))
             else:
                 self.variables = list(variables)
             if not functions:
-- 
2.43.0

