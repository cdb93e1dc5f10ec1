From 6f43d097693f5aa25b6c65a146424458797e445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:56 +0000
Subject: [PATCH 01/29] fix: report the subsurface melt for the layer height
 before it shrinks

---
 cosipy/modules/penetratingRadiation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cosipy/modules/penetratingRadiation.py b/cosipy/modules/penetratingRadiation.py
index 0ce21f2..e53abc0 100644
--- a/cosipy/modules/penetratingRadiation.py
+++ b/cosipy/modules/penetratingRadiation.py
@@ -94,6 +94,11 @@ def method_Bintanja(GRID, SWnet: float, dt: int) -> tuple:
             dtheta_i = (water_density / ice_density) * -dtheta_w
             dh = -dtheta_i / GRID.get_node_ice_fraction(idxNode)
 
+            # The fraction refers to the height before the layer shrinks
+            subsurface_melt = subsurface_melt + dtheta_w * GRID.get_node_height(
+                idxNode
+            )
+
             if dh >= 1.0:
                 list_of_layers_to_remove.append(idxNode)
             else:
@@ -111,10 +116,6 @@ def method_Bintanja(GRID, SWnet: float, dt: int) -> tuple:
                 GRID.set_node_liquid_water_content(
                     idxNode, LWC_temp / GRID.get_node_height(idxNode)
                 )
-
-            subsurface_melt = subsurface_melt + dtheta_w * GRID.get_node_height(
-                idxNode
-            )
         else:
             GRID.set_node_temperature(idxNode, T_rad)
 
-- 
2.43.0


From 6c3c41206d2c5c6ad06f413a68684f3cd73d40bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:08 +0000
Subject: [PATCH 02/29] fix: count the heights of the snow layers, not of the
 first layers of the column

---
 cosipy/cpkernel/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/grid.py b/cosipy/cpkernel/grid.py
index 94072a1..480cf01 100644
--- a/cosipy/cpkernel/grid.py
+++ b/cosipy/cpkernel/grid.py
@@ -814,7 +814,8 @@ class Grid:
         """Get the heights of the snow layers."""
         return [
             self.grid[idx].get_layer_height()
-            for idx in range(self.get_number_snow_layers())
+            for idx in range(self.number_nodes)
+            if (self.get_node_density(idx) < snow_ice_threshold)
         ]
 
     def get_ice_heights(self) -> list:
-- 
2.43.0


From d888a64eae2e4c6464c2e6b525b21c93c94968af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:38 +0000
Subject: [PATCH 03/29] fix: reduce the fresh snow height by the height that
 melts

---
 cosipy/cpkernel/grid.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/grid.py b/cosipy/cpkernel/grid.py
index 480cf01..e4c31fa 100644
--- a/cosipy/cpkernel/grid.py
+++ b/cosipy/cpkernel/grid.py
@@ -633,6 +633,7 @@ class Grid:
             Liquid water content from removed layers.
         """
         lwc_from_layers = 0.0
+        melted_height = 0.0
 
         while melt > 0.0 and idx < self.number_nodes:
             # Get SWE of layer
@@ -641,6 +642,9 @@ class Grid:
             )
             # Remove melt from layer and set new snowheight
             if melt < SWE:
+                melted_height = melted_height + self.get_node_height(idx) * (
+                    melt / SWE
+                )
                 self.set_node_height(
                     idx,
                     (SWE - melt)
@@ -649,6 +653,7 @@ class Grid:
                 melt = 0.0
             # remove layer otherwise and continue loop
             elif melt >= SWE:
+                melted_height = melted_height + self.get_node_height(idx)
                 lwc_from_layers = (
                     lwc_from_layers
                     + self.get_node_liquid_water_content(idx)
@@ -659,7 +664,9 @@ class Grid:
 
         # Keep track of the fresh snow layer
         if idx == 0:
-            self.set_fresh_snow_props_height(self.new_snow_height - melt)
+            self.set_fresh_snow_props_height(
+                self.new_snow_height - melted_height - melt
+            )
 
         return lwc_from_layers
 
-- 
2.43.0


From 41d7d541298640dd7028abb9ee6fb6d160904571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:38 +0000
Subject: [PATCH 04/29] fix: scale the Bougamont05 albedo decay by the length
 of the time step

---
 cosipy/modules/albedo.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cosipy/modules/albedo.py b/cosipy/modules/albedo.py
index 2e6afd3..587c974 100644
--- a/cosipy/modules/albedo.py
+++ b/cosipy/modules/albedo.py
@@ -241,10 +241,8 @@ def method_Bougamont(GRID, surface_temperature: float, albedo_snow: float):
         Exponential function discretised to account for variable surface
         temperature-dependant decay timescales."""
 
-        # slightly faster than one-liner
-        t_star_days = float(t_star) * float(dt_days)
         delta_albedo = albedo_snow - albedo_firn
-        albedo_snow -= delta_albedo / t_star_days
+        albedo_snow -= delta_albedo / float(t_star) * float(dt_days)
 
         # Reset if snowfall in current timestep
         if hours_since_snowfall == 0:
-- 
2.43.0


From 7493a7d91f4d4b10667ceab268f2e252f0a86cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:38 +0000
Subject: [PATCH 05/29] fix: keep the liquid water fraction when a layer is
 split

---
 cosipy/cpkernel/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/cpkernel/grid.py b/cosipy/cpkernel/grid.py
index e4c31fa..5674790 100644
--- a/cosipy/cpkernel/grid.py
+++ b/cosipy/cpkernel/grid.py
@@ -502,7 +502,7 @@ class Grid:
                 self.get_node_height(pos) / 2.0,
                 self.get_node_density(pos),
                 self.get_node_temperature(pos),
-                self.get_node_liquid_water_content(pos) / 2.0,
+                self.get_node_liquid_water_content(pos),
                 self.get_node_ice_fraction(pos),
             ),
         )
@@ -511,7 +511,7 @@ class Grid:
             self.get_node_height(pos) / 2.0,
             self.get_node_temperature(pos),
             self.get_node_ice_fraction(pos),
-            self.get_node_liquid_water_content(pos) / 2.0,
+            self.get_node_liquid_water_content(pos),
         )
 
         self.number_nodes += 1
-- 
2.43.0


From c0344c3ace416e3bde840befd41e667f60d2c479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:09 +0000
Subject: [PATCH 06/29] fix: drop the unknown layer variable LW from the
 shipped full field selection

---
 config.toml                               | 2 +-
 cosipy/utilities/setup_cosipy/config.toml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/config.toml b/config.toml
index eaf9009..d3820f5 100644
--- a/config.toml
+++ b/config.toml
@@ -60,4 +60,4 @@ yend = 40
 # Select which output variables are written to disk. Comma-separated. Edit with caution.
 output_atm = "T2,RH2,U2,RAIN,SNOWFALL,RRR,PRES,N,G,LWin,LWout,H,LE,B,QRR,Z0,ALBEDO,TS"
 output_internal = "ME,MB,surfMB,intMB,EVAPORATION,SUBLIMATION,CONDENSATION,DEPOSITION,surfM,subM,Q,REFREEZE,SNOWHEIGHT,TOTALHEIGHT,LAYERS"
-output_full = "HEIGHT,RHO,T,LWC,CC,POROSITY,LW,ICE_FRACTION,IRREDUCIBLE_WATER,REFREEZE"
+output_full = "HEIGHT,RHO,T,LWC,CC,POROSITY,ICE_FRACTION,IRREDUCIBLE_WATER,REFREEZE"
diff --git a/cosipy/utilities/setup_cosipy/config.toml b/cosipy/utilities/setup_cosipy/config.toml
index eaf9009..d3820f5 100644
--- a/cosipy/utilities/setup_cosipy/config.toml
+++ b/cosipy/utilities/setup_cosipy/config.toml
@@ -60,4 +60,4 @@ yend = 40
 # Select which output variables are written to disk. Comma-separated. Edit with caution.
 output_atm = "T2,RH2,U2,RAIN,SNOWFALL,RRR,PRES,N,G,LWin,LWout,H,LE,B,QRR,Z0,ALBEDO,TS"
 output_internal = "ME,MB,surfMB,intMB,EVAPORATION,SUBLIMATION,CONDENSATION,DEPOSITION,surfM,subM,Q,REFREEZE,SNOWHEIGHT,TOTALHEIGHT,LAYERS"
-output_full = "HEIGHT,RHO,T,LWC,CC,POROSITY,LW,ICE_FRACTION,IRREDUCIBLE_WATER,REFREEZE"
+output_full = "HEIGHT,RHO,T,LWC,CC,POROSITY,ICE_FRACTION,IRREDUCIBLE_WATER,REFREEZE"
-- 
2.43.0


From c27d476cd54ce4b30ae20180dbd66584e575e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:09 +0000
Subject: [PATCH 07/29] fix: read the restart files that the model itself
 writes

---
 cosipy/cpkernel/init.py | 11 ++++++++---
 cosipy/cpkernel/io.py   |  4 +++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/cosipy/cpkernel/init.py b/cosipy/cpkernel/init.py
index 264b5ec..9ca1119 100644
--- a/cosipy/cpkernel/init.py
+++ b/cosipy/cpkernel/init.py
@@ -129,9 +129,14 @@ def load_snowpack(GRID_RESTART):
     layer_LWC = GRID_RESTART.LAYER_LWC.values[0:num_layers]
     layer_IF = GRID_RESTART.LAYER_IF.values[0:num_layers]
 
-    new_snow_height = np.float64(GRID_RESTART.new_snow_height.values)
-    new_snow_timestamp = np.float64(GRID_RESTART.new_snow_timestamp.values)
-    old_snow_timestamp = np.float64(GRID_RESTART.old_snow_timestamp.values)
+    if hasattr(GRID_RESTART, "NEWSNOWHEIGHT"):  # restart file
+        new_snow_height = np.float64(GRID_RESTART.NEWSNOWHEIGHT.values)
+        new_snow_timestamp = np.float64(GRID_RESTART.NEWSNOWTIMESTAMP.values)
+        old_snow_timestamp = np.float64(GRID_RESTART.OLDSNOWTIMESTAMP.values)
+    else:  # WRF_X_CSPY
+        new_snow_height = np.float64(GRID_RESTART.new_snow_height.values)
+        new_snow_timestamp = np.float64(GRID_RESTART.new_snow_timestamp.values)
+        old_snow_timestamp = np.float64(GRID_RESTART.old_snow_timestamp.values)
 
     GRID = create_grid_jitted(
         layer_heights,
diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index 302df91..53e9b7f 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -137,7 +137,9 @@ class IOClass:
             time_end = Config.time_end
             start_timestamp = self.get_datetime(time_start)
             end_timestamp = self.get_datetime(time_end)
-            timestamp = start_timestamp.strftime("%Y-%m-%dT%H-%M")
+            timestamp = self.get_datetime(time_start, use_np=False).strftime(
+                "%Y-%m-%dT%H-%M"
+            )
             restart_path = os.path.join(
                 Config.data_path, "restart", f"restart_{timestamp}.nc"
             )
-- 
2.43.0


From 7cef0318723aa98f51f679be22e40afa632f573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:09 +0000
Subject: [PATCH 08/29] fix: do not swap units and long name of missing input
 variables

---
 cosipy/cpkernel/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index 53e9b7f..635ca2b 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -550,16 +550,16 @@ class IOClass:
                 self.RESULT,
                 np.full_like(self.DATA.T2, np.nan),
                 "RRR",
-                spatiotemporal["RRR"][1],
                 spatiotemporal["RRR"][0],
+                spatiotemporal["RRR"][1],
             )
         if "N" not in self.DATA:
             self.add_variable_along_latlontime(
                 self.RESULT,
                 np.full_like(self.DATA.T2, np.nan),
                 "N",
-                spatiotemporal["N"][1],
                 spatiotemporal["N"][0],
+                spatiotemporal["N"][1],
             )
 
         print(f"\nOutput dataset ... ok")
-- 
2.43.0


From a7e3bc5cd28679f3723c9d04ba22011102f1d307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:09 +0000
Subject: [PATCH 09/29] fix: sort the forcing along with its time stamps

---
 cosipy/cpkernel/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index 635ca2b..ab3f2ea 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -283,7 +283,7 @@ class IOClass:
             raise SystemExit(f"Input file not found at: {input_path}")
 
 
-        self.DATA["time"] = np.sort(self.DATA["time"].values)
+        self.DATA = self.DATA.sortby("time")
         minimum_time = str(self.DATA.time.values[0])[0:16]
         maximum_time = str(self.DATA.time.values[-1])[0:16]
         start_interval = self.get_datetime(minimum_time)
-- 
2.43.0


From be1aff7d22e6941b4b853e4d3aa246050914ece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:09 +0000
Subject: [PATCH 10/29] fix: run with snowfall as the only precipitation input

---
 cosipy/cpkernel/cosipy_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/cosipy_core.py b/cosipy/cpkernel/cosipy_core.py
index b4aa2fb..3aee0b0 100644
--- a/cosipy/cpkernel/cosipy_core.py
+++ b/cosipy/cpkernel/cosipy_core.py
@@ -182,7 +182,6 @@ def cosipy_core(DATA, indY, indX, GRID_RESTART=None, stake_names=None, stake_dat
     elif 'SNOWFALL' in DATA:
         SNOWF = DATA.SNOWFALL.values * mult_factor_RRR
         RRR = None
-        RAIN = None
     else:
         SNOWF = None
         RRR = DATA.RRR.values * mult_factor_RRR
@@ -248,6 +247,7 @@ def cosipy_core(DATA, indY, indX, GRID_RESTART=None, stake_names=None, stake_dat
             RAIN = RRR[t]-SNOWFALL*(density_fresh_snow/water_density) * 1000.0
         elif SNOWF is not None:
             SNOWFALL = SNOWF[t]
+            RAIN = 0.0
         elif RRR is not None:
             # Else convert total precipitation [mm] to snowheight [m]; liquid/solid fraction
             SNOWFALL = (RRR[t]/1000.0)*(water_density/density_fresh_snow)*(0.5*(-np.tanh(((T2[t]-zero_temperature) - center_snow_transfer_function) * spread_snow_transfer_function) + 1.0))
-- 
2.43.0


From dea17fbbdb0acbd720143ff605d5a63a4e1907d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:44 +0000
Subject: [PATCH 11/29] fix: close the energy balance where the root finding
 stops elsewhere

The secant and Newton iterations stop when two iterates are close to each other,
which happens away from any root where the balance is flat; and the fallback
minimised the signed balance, which drives the temperature to the upper bound.
Check the balance, and fall back on a bracketing method.
---
 cosipy/modules/surfaceTemperature.py | 61 ++++++++++++++++++++++++----
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/cosipy/modules/surfaceTemperature.py b/cosipy/modules/surfaceTemperature.py
index f952c0f..f1d6f0a 100644
--- a/cosipy/modules/surfaceTemperature.py
+++ b/cosipy/modules/surfaceTemperature.py
@@ -1,6 +1,6 @@
 import numpy as np
 from numba import njit
-from scipy.optimize import minimize, newton
+from scipy.optimize import brentq, minimize, newton
 
 from cosipy.config import Config
 from cosipy.constants import Constants
@@ -88,24 +88,24 @@ def update_surface_temperature(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLO
             res = newton(eb_optim, np.array([initial_guess]), tol=1e-2, maxiter=50,
                         args=(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
             check_residual_clip(residual=res, lower_bound=lower_bnd_ts)
+            check_closure(eb_optim(res, GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
 
         except (RuntimeError,ValueError):
-             # Workaround for non-convergence and unboundedness
-             res = minimize(eb_optim, initial_guess, method='SLSQP',
-                       bounds=((lower_bnd_ts, upper_bnd_ts),),tol=1e-2,
-                       args=(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
+            # Workaround for non-convergence and unboundedness
+            res = solve_bracketed(lower_bnd_ts, upper_bnd_ts,
+                        args=(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
     elif sfc_temperature_method == 'Secant':
         try:
             res = call_secant_jitted(
                 GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, lower_bnd_ts, LWin, N, 
             )
             check_residual_clip(residual=res, lower_bound=lower_bnd_ts)
+            check_closure(eb_optim(res, GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
 
         except (RuntimeError, ValueError):
             # Workaround for non-convergence and unboundedness
-            res = minimize(eb_optim, initial_guess, method='SLSQP',
-                           bounds=((lower_bnd_ts, zero_temperature),), tol=1e-2,
-                           args=(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
+            res = solve_bracketed(lower_bnd_ts, upper_bnd_ts,
+                        args=(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
     else:
         raise NotImplementedError('Invalid method for minimizing the residual.')
 
@@ -147,6 +147,51 @@ def check_residual_clip(residual, lower_bound: float) -> bool:
     return True
 
 
+def check_closure(balance, tolerance: float = 1.0) -> bool:
+    """Raise error if the energy balance is not closed.
+
+    The root finding methods stop when two iterates are close to each
+    other, which does not imply that they are close to a root.
+
+    Args:
+        balance (float or np.ndarray): Energy balance at the surface
+            temperature solution [|W m^-2|].
+        tolerance: Maximum allowable imbalance [|W m^-2|].
+
+    Returns:
+        True if the energy balance is closed.
+
+    Raises:
+        RuntimeError: TS solution does not close the energy balance.
+    """
+    if not np.all(np.abs(balance) <= tolerance):
+        raise RuntimeError("TS solution does not close the energy balance.")
+    return True
+
+
+def solve_bracketed(lower_bound: float, upper_bound: float, args: tuple) -> np.ndarray:
+    """Solve the surface temperature within bounds.
+
+    Args:
+        lower_bound: Minimum allowable surface temperature [K].
+        upper_bound: Maximum allowable surface temperature [K].
+        args: Arguments of the energy balance function.
+
+    Returns:
+        Surface temperature that closes the energy balance, or the bound
+        closest to it.
+    """
+
+    def balance(T0: float) -> float:
+        return np.asarray(eb_optim(np.array([T0]), *args)).item()
+
+    if balance(lower_bound) <= 0.0:
+        return np.array([lower_bound])
+    if balance(upper_bound) >= 0.0:
+        return np.array([upper_bound])
+    return np.array([brentq(balance, lower_bound, upper_bound, xtol=1e-2)])
+
+
 @njit
 def call_secant_jitted(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, lower_bnd_ts, LWin=None, N=None, initial_guess=None):
     """Jitted call to secant.py.
-- 
2.43.0


From 4b9c0a7d75e6a014b43821ac69604d4b55b21b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:56 +0000
Subject: [PATCH 12/29] fix: give the top layer no more water than it can hold
 when a layer is resized

The water was limited by the retention of the whole layer before it was cut, so a
thin top layer could hold more water than volume, and be taken for ice.
---
 cosipy/cpkernel/grid.py | 30 +++++-------------------------
 1 file changed, 5 insertions(+), 25 deletions(-)

diff --git a/cosipy/cpkernel/grid.py b/cosipy/cpkernel/grid.py
index 5674790..778c2d7 100644
--- a/cosipy/cpkernel/grid.py
+++ b/cosipy/cpkernel/grid.py
@@ -300,32 +300,12 @@ class Grid:
             """Update liquid water content.
             Fills the upper layer with water until maximum retention.
             The remaining water is assigned to the second layer.
-            If LWC exceeds the irreducible water content of the first
-            layer, then the first layer is filled and the rest assigned
-            to the second layer.
             """
-            if (
-                self.get_node_liquid_water_content(idx)
-                - self.get_node_irreducible_water_content(idx)
-            ) > 0:
-                lw0 = self.get_node_irreducible_water_content(
-                    idx
-                ) * self.get_node_height(idx)
-                lw1 = self.get_node_liquid_water_content(
-                    idx
-                ) * self.get_node_height(
-                    idx
-                ) - self.get_node_irreducible_water_content(
-                    idx
-                ) * self.get_node_height(
-                    idx
-                )
-            # if LWC<WC_irr, then assign all water to the first layer
-            else:
-                lw0 = self.get_node_liquid_water_content(
-                    idx
-                ) * self.get_node_height(idx)
-                lw1 = 0.0
+            lw_total = self.get_node_liquid_water_content(idx) * total_height
+            lw0 = min(
+                lw_total, self.get_node_irreducible_water_content(idx) * h0
+            )
+            lw1 = lw_total - lw0
 
             # Update ice fraction
             if0 = self.get_node_ice_fraction(idx)
-- 
2.43.0


From 7e99a46ba0031c25d1953c2b60d4f37145afeee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:43 +0000
Subject: [PATCH 13/29] fix: solar position follows longitude, equation of time
 and azimuth formula

---
 cosipy/modules/radCor.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index ff81a0c..a0aec62 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -40,12 +40,12 @@ def solarFParallel(lat:float, lon:float, timezone_lon:float, day:int, hour:float
         math.sin(3.0 * teta) - 12.7 * math.sin(4.0 * teta) - 429.3 *
         math.cos(teta) - 2.0 * math.cos(2.0 * teta) + 19.3 * math.cos(3.0 * teta)) / 3600.0
 
-    # Longitude correction (hours)
-    LC = (timezone_lon - lon) / 15.0
+    # Longitude correction (hours), longitudes are positive to the east
+    LC = (lon - timezone_lon) / 15.0
 
     # Solar noon (hours) / solar time (hours)
-    solarnoon = 12.0 - LC - timeEq 
-    solartime = hour - LC - timeEq
+    solarnoon = 12.0
+    solartime = (hour + LC + timeEq) % 24.0
 
     # Solar elevation
     beta = math.asin(math.sin(lat * FAC) * math.sin(dec) + math.cos(lat * FAC) * 
@@ -55,7 +55,8 @@ def solarFParallel(lat:float, lon:float, timezone_lon:float, day:int, hour:float
     zeni = math.pi/2.0 - beta
     
     # Azimuth angle (radians)
-    azi = math.acos((math.sin(lat * FAC) * math.cos(zeni) - math.sin(dec)))/math.cos(lat*FAC)*math.sin(zeni)
+    cos_azi = (math.sin(lat * FAC) * math.cos(zeni) - math.sin(dec)) / max(math.cos(lat * FAC) * math.sin(zeni), 1e-12)
+    azi = math.acos(max(-1.0, min(1.0, cos_azi)))
     
     if solartime < solarnoon:
         azi = azi * -1.0
-- 
2.43.0


From 3514951835bdff59991fb76f2d687237d013aa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:43 +0000
Subject: [PATCH 14/29] fix: a slope in its own shade keeps its diffuse
 radiation

---
 cosipy/modules/radCor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index a0aec62..c995fe9 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -151,6 +151,7 @@ def radCor2D(doy, zeni, azi, angslo, azislo, Rm, zeni_thld):
         * math.sin(angslo * FAC)
         * math.cos(azi - (azislo * FAC))
     ) / math.cos(zeni)
+    cf = max(cf, 0.0)  # no beam on a slope facing away from the sun
 
     Rc = Rb * cf + Rd
     
-- 
2.43.0


From e87c99558a16a477fbaf5f54af4f0b72073418ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:43 +0000
Subject: [PATCH 15/29] fix: solar position within the hour for sub-hourly
 station data

---
 cosipy/utilities/aws2cosipy/aws2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/aws2cosipy/aws2cosipy.py b/cosipy/utilities/aws2cosipy/aws2cosipy.py
index e2c4208..85824a6 100644
--- a/cosipy/utilities/aws2cosipy/aws2cosipy.py
+++ b/cosipy/utilities/aws2cosipy/aws2cosipy.py
@@ -622,7 +622,7 @@ def create_2D_input(
 
         for t in range(time_index):
             doy = df.index[t].dayofyear
-            hour = df.index[t].hour
+            hour = df.index[t].hour + df.index[t].minute / 60.0
             for i in range(lat_index):
                 for j in range(lon_index):
                     if mask[i, j] == 1:
-- 
2.43.0


From 55e74ec2b2841e30ec5f69ae81fe7ed9d8e10727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:43 +0000
Subject: [PATCH 16/29] fix: same barometric exponent down to sea level and
 back up

---
 cosipy/utilities/aws2cosipy/aws2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/aws2cosipy/aws2cosipy.py b/cosipy/utilities/aws2cosipy/aws2cosipy.py
index 85824a6..67f714c 100644
--- a/cosipy/utilities/aws2cosipy/aws2cosipy.py
+++ b/cosipy/utilities/aws2cosipy/aws2cosipy.py
@@ -233,7 +233,7 @@ def get_pressure_bias(data, height):
     slp = data / np.power(
         (1 - (0.0065 * _cfg.station["stationAlt"]) / (288.15)), 5.255
     )
-    pressure = slp * np.power((1 - (0.0065 * height) / (288.15)), 5.22)
+    pressure = slp * np.power((1 - (0.0065 * height) / (288.15)), 5.255)
 
     return pressure
 
-- 
2.43.0


From 2141a3ff7397c6840d20e12148dbebfd766ece0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:43 +0000
Subject: [PATCH 17/29] fix: point input in the WRF layout has its own
 latitude, longitude and dimensions

---
 cosipy/utilities/aws2cosipy/aws2cosipy.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cosipy/utilities/aws2cosipy/aws2cosipy.py b/cosipy/utilities/aws2cosipy/aws2cosipy.py
index 67f714c..1e2e58d 100644
--- a/cosipy/utilities/aws2cosipy/aws2cosipy.py
+++ b/cosipy/utilities/aws2cosipy/aws2cosipy.py
@@ -305,8 +305,8 @@ def create_1D_input(cs_file, cosipy_file, static_file, start_date, end_date):
     if _cfg.coords["WRF"]:
         ds = xr.Dataset()
         lon, lat = np.meshgrid(_cfg.points["plon"], _cfg.points["plat"])
-        ds.coords["lat"] = (("south_north", "west_east"), lon)
-        ds.coords["lon"] = (("south_north", "west_east"), lat)
+        ds.coords["lat"] = (("south_north", "west_east"), lat)
+        ds.coords["lon"] = (("south_north", "west_east"), lon)
 
     else:
         if static_file:
@@ -814,7 +814,11 @@ def add_variable_along_latlon(ds, var, name, units, long_name):
 
 def add_variable_along_timelatlon_point(ds, var, name, units, long_name):
     """Add spatiotemporal point data to a dataset."""
-    ds[name] = (("time", "lat", "lon"), np.reshape(var, (len(var), 1, 1)))
+    if _cfg.coords["WRF"]:
+        dims = ("time", "south_north", "west_east")
+    else:
+        dims = ("time", "lat", "lon")
+    ds[name] = (dims, np.reshape(var, (len(var), 1, 1)))
     ds[name].attrs["units"] = units
     ds[name].attrs["long_name"] = long_name
     return ds
@@ -822,7 +826,8 @@ def add_variable_along_timelatlon_point(ds, var, name, units, long_name):
 
 def add_variable_along_point(ds, var, name, units, long_name):
     """Add point data to a dataset."""
-    ds[name] = (("lat", "lon"), np.reshape(var, (1, 1)))
+    dims = ("south_north", "west_east") if _cfg.coords["WRF"] else ("lat", "lon")
+    ds[name] = (dims, np.reshape(var, (1, 1)))
     ds[name].attrs["units"] = units
     ds[name].attrs["long_name"] = long_name
     return ds
-- 
2.43.0


From 5907f342c62d03281433c0efa22586b27774dd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:43 +0000
Subject: [PATCH 18/29] fix: wrf2cosipy hands arrays to the dataset, not
 labelled arrays

---
 cosipy/utilities/wrf2cosipy/wrf2cosipy.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
index 67bfef4..b410119 100644
--- a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
+++ b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
@@ -72,11 +72,11 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
     dso = add_variable_along_timelatlon(dso, ds.SWDOWN.values, 'G', 'W m^-2', 'Incoming shortwave radiation')
     dso = add_variable_along_timelatlon(dso, ds.GLW.values, 'LWin', 'W m^-2', 'Incoming longwave radiation')
     dso = add_variable_along_timelatlon(dso, ds.PSFC.values/100.0, 'PRES', 'hPa', 'Atmospheric Pressure')
-    dso = add_variable_along_latlon(dso, ds.SNOWH[0], 'SNOWHEIGHT', 'm', 'Initial snowheight')
-    dso = add_variable_along_latlon(dso, ds.SNOW[0], 'SWE', 'kg m^-2', 'Snow Water Equivalent')
-    dso = add_variable_along_latlon(dso, ds.SNOWC[0], 'SNOWC', '-', 'Flag indicating snow coverage (1 for snow cover)')
-    dso = add_variable_along_latlon(dso, ds.LU_INDEX[0], 'LU_INDEX', '-', 'Land use category')
-    dso = add_variable_along_latlon(dso, ds.TSK[0], 'TSK', 'K', 'Skin temperature')
+    dso = add_variable_along_latlon(dso, ds.SNOWH[0].values, 'SNOWHEIGHT', 'm', 'Initial snowheight')
+    dso = add_variable_along_latlon(dso, ds.SNOW[0].values, 'SWE', 'kg m^-2', 'Snow Water Equivalent')
+    dso = add_variable_along_latlon(dso, ds.SNOWC[0].values, 'SNOWC', '-', 'Flag indicating snow coverage (1 for snow cover)')
+    dso = add_variable_along_latlon(dso, ds.LU_INDEX[0].values, 'LU_INDEX', '-', 'Land use category')
+    dso = add_variable_along_latlon(dso, ds.TSK[0].values, 'TSK', 'K', 'Skin temperature')
     
     # Wind velocity at 2 m (assuming neutral stratification)
     z  = _cfg.constants["hu"]     # Height of measurement
@@ -86,7 +86,7 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
     dso = add_variable_along_timelatlon(dso, U2, 'U2', 'm s^-1', 'Wind velocity at 2 m')
 
     # Add glacier mask to file (derived from the land use category)
-    mask = ds.LU_INDEX[0].values
+    mask = ds.LU_INDEX[0].values.copy()
     mask[mask!=_cfg.constants["lu_class"]] = 0
     mask[mask==_cfg.constants["lu_class"]] = 1
     dso = add_variable_along_latlon(dso, mask, 'MASK', '-', 'Glacier mask')
@@ -117,8 +117,8 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
     HGT.attrs['res'] = (DX,DY)
     slope = xrs.slope(HGT)
     aspect = xrs.aspect(HGT)
-    dso = add_variable_along_latlon(dso, slope, 'SLOPE', 'degrees', 'Slope')
-    dso = add_variable_along_latlon(dso, aspect, 'ASPECT', 'degrees', 'Aspect')
+    dso = add_variable_along_latlon(dso, slope.values, 'SLOPE', 'degrees', 'Slope')
+    dso = add_variable_along_latlon(dso, aspect.values, 'ASPECT', 'degrees', 'Aspect')
 
     # Write file
     dso.to_netcdf(cosipy_file)
-- 
2.43.0


From 248302aa29061bce69c6151afc1972a722febf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:43 +0000
Subject: [PATCH 19/29] fix: wrf2cosipy writes times, so that periods can be
 selected

---
 cosipy/utilities/wrf2cosipy/wrf2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
index b410119..a8b88aa 100644
--- a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
+++ b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
@@ -53,7 +53,7 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
     ds = ds.rename({'XTIME':'Time'})
     
     # Re-format timestamp (only hour and minutes, no seconds)
-    ds = ds.assign_coords(Time=pd.to_datetime(ds['Time'].values).strftime('%Y-%m-%dT%H-%M'))
+    ds = ds.assign_coords(Time=pd.to_datetime(ds['Time'].values).floor('min'))
 
     # Select the specified period
     if ((start_date!=None) & (end_date!=None)):
-- 
2.43.0


From ca20edab183793a89cc1a9c0cad6058b5fb09234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:43 +0000
Subject: [PATCH 20/29] fix: wrf2cosipy uses the configured wind height, and
 names the unit of T2

---
 cosipy/utilities/wrf2cosipy/wrf2cosipy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
index a8b88aa..8b8db1d 100644
--- a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
+++ b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
@@ -67,7 +67,7 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
  
     # Add variables to file 
     dso = add_variable_along_latlon(dso, ds.HGT[0].values, 'HGT', 'm', 'Elevation')
-    dso = add_variable_along_timelatlon(dso, ds.T2.values, 'T2', 'm', 'Temperature at 2 m')
+    dso = add_variable_along_timelatlon(dso, ds.T2.values, 'T2', 'K', 'Temperature at 2 m')
     dso = add_variable_along_timelatlon(dso, wrf_rh(ds.T2.values, ds.Q2.values, ds.PSFC.values), 'RH2', '%', 'Relative humidity at 2 m')
     dso = add_variable_along_timelatlon(dso, ds.SWDOWN.values, 'G', 'W m^-2', 'Incoming shortwave radiation')
     dso = add_variable_along_timelatlon(dso, ds.GLW.values, 'LWin', 'W m^-2', 'Incoming longwave radiation')
@@ -82,7 +82,7 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
     z  = _cfg.constants["hu"]     # Height of measurement
     z0 = 0.0040 # Roughness length for momentum
     umag = np.sqrt(ds.V10.values**2+ds.U10.values**2)   # Mean wind velocity
-    U2 = umag * (np.log(2 / z0) / np.log(10 / z0))
+    U2 = umag * (np.log(2 / z0) / np.log(z / z0))
     dso = add_variable_along_timelatlon(dso, U2, 'U2', 'm s^-1', 'Wind velocity at 2 m')
 
     # Add glacier mask to file (derived from the land use category)
-- 
2.43.0


From 916340e79c2d025b6cce0086830486f0c980bf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:37 +0000
Subject: [PATCH 21/29] fix: pressure, temperature and humidity in the order
 metpy takes them

---
 cosipy/modules/radCor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index c995fe9..367460e 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -463,7 +463,7 @@ def calcRad(solPars, timecorr, doy, hour, lat, tempgrid, pgrid, rhgrid, cldgrid,
     swidiff = np.full_like(elvgrid, np.nan)
 
     # Mixing ratio from RH and Pres
-    mixing_interp = metpy.calc.mixing_ratio_from_relative_humidity(rhgrid * units.percent, tempgrid * units.kelvin, pgrid * units.hPa)
+    mixing_interp = metpy.calc.mixing_ratio_from_relative_humidity(pgrid * units.hPa, tempgrid * units.kelvin, rhgrid * units.percent)
     vp_interp = np.array(metpy.calc.vapor_pressure(pgrid * units.hPa, mixing_interp))
 
     # Solar geometries
-- 
2.43.0


From 258fff01fed4e698bde2bd09e8c786761dc8f6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:37 +0000
Subject: [PATCH 22/29] fix: shading is looked up for the sun position the
 radiation is computed for

---
 cosipy/modules/radCor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index 367460e..00f5923 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -353,7 +353,7 @@ def LUTshad(solpars, timecorr, lat, elvgrid, maskgrid, lats, lons, STEP, TCART):
         for hod in np.arange(0, 24, int(STEP / 3600)):
 
             # calculate solar geometries
-            stime = 180 + (15 / 2) - hod * 15 - tcorr + TCART
+            stime = 180 + (STEP / 3600 * 15 / 2) - hod * 15 - tcorr + TCART
             sin_h = math.sin(soldec) * math.sin(lat * math.pi / 180) + math.cos(soldec) * math.cos(lat * math.pi / 180) * \
                     math.cos(stime * math.pi / 180)
             cos_sol_azi = (sin_h * math.sin(lat * math.pi / 180) - math.sin(soldec)) / math.cos(math.asin(sin_h)) / \
-- 
2.43.0


From c57d6b3af54c10b797ab67dec7e47feaf7b52226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:44 +0000
Subject: [PATCH 23/29] fix: aspect of WRF terrain, whose rows run from south
 to north

---
 cosipy/utilities/wrf2cosipy/wrf2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
index 8b8db1d..75ae063 100644
--- a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
+++ b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
@@ -116,7 +116,7 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
     HGT = ds.HGT[0]
     HGT.attrs['res'] = (DX,DY)
     slope = xrs.slope(HGT)
-    aspect = xrs.aspect(HGT)
+    aspect = xrs.aspect(HGT[::-1])[::-1]  # expects the northernmost row first
     dso = add_variable_along_latlon(dso, slope.values, 'SLOPE', 'degrees', 'Slope')
     dso = add_variable_along_latlon(dso, aspect.values, 'ASPECT', 'degrees', 'Aspect')
 
-- 
2.43.0


From e8efc058af632fb902170f8417af1abd1de7b144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:14 +0000
Subject: [PATCH 24/29] fix: continue a restarted run by a single step

---
 cosipy/cpkernel/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index ab3f2ea..572a068 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -316,8 +316,8 @@ class IOClass:
             )
             self.DATA = self.DATA.sel(time=slice(time_start, time_end))
         else:
-            # There is nothing to do if the dates are equal
-            if self.restart_date == end_time:
+            # There is nothing to do if the first new step is past the end
+            if self.restart_date > end_time:
                 raise SystemExit("Start date equals end date ... no new data ... EXIT")
             else:
                 # otherwise, run the model from the restart date to the defined end date
-- 
2.43.0


From 0a2fcf803b3b3039b2fdb90dff16b09c59cf19bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:40 +0000
Subject: [PATCH 25/29] fix: bounds of the slope in the check of the input data

---
 cosipy/cpkernel/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index 572a068..9378c9a 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -251,7 +251,7 @@ class IOClass:
             "PRES": (1080.0, 400.0),
             "LWin": (400.0, 200.0),
             "SNOWFALL": (0.1, 0.0),
-            "SLOPE": (0.0, 90.0),
+            "SLOPE": (90.0, 0.0),
         }
 
         for key, bounds in data_bounds.items():
-- 
2.43.0


From 941617b63b7bf1c48cf8cd0f0d63fa9f91b156a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:50 +0000
Subject: [PATCH 26/29] fix: sample settings of the tools name the file of the
 look-up tables

---
 cosipy/utilities/setup_cosipy/utilities_config.toml | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cosipy/utilities/setup_cosipy/utilities_config.toml b/cosipy/utilities/setup_cosipy/utilities_config.toml
index f358b03..c6defc3 100644
--- a/cosipy/utilities/setup_cosipy/utilities_config.toml
+++ b/cosipy/utilities/setup_cosipy/utilities_config.toml
@@ -31,6 +31,7 @@ delimiter = ','
 [aws2cosipy.radiation]
 radiationModule = 'Wohlfahrt2016' # 'Moelg2009', 'Wohlfahrt2016', 'none'
 LUT = false  # If there is already a Look-up-table for topographic shading and sky-view-factor built for this area, set to True
+LUT_path = "./data/static/LUT_Rad.nc"
 dtstep = 10800  # time step (s)
 tcart = 26  # Station time correction in hour angle units (1 is 4 min)
 timezone_lon = 90.0  # Longitude of station
-- 
2.43.0


From 3f16e9262a1d71806b1a21cce24d975312a7907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:41 +0000
Subject: [PATCH 27/29] fix: daily mean of the day asked for, not of the
 nearest midnight

---
 cosipy/postprocessing/field_plots/plot_cosipy_fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cosipy/postprocessing/field_plots/plot_cosipy_fields.py b/cosipy/postprocessing/field_plots/plot_cosipy_fields.py
index aadbfbe..9305648 100644
--- a/cosipy/postprocessing/field_plots/plot_cosipy_fields.py
+++ b/cosipy/postprocessing/field_plots/plot_cosipy_fields.py
@@ -9,6 +9,7 @@ import cartopy.crs as ccrs
 import matplotlib
 import matplotlib.pyplot as plt
 import numpy as np
+import pandas as pd
 import xarray as xr
 
 # matplotlib.use("TkAgg")
@@ -58,7 +59,7 @@ def get_selection(
         data = (
             array.resample(time="1D", skipna=True)
             .mean()
-            .sel(time=timestamp, method="nearest")
+            .sel(time=pd.Timestamp(timestamp).normalize(), method="nearest")
         )
 
     return data
-- 
2.43.0


From 6a6241f41238fc826cb1e7fb339f47cd83fbd428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:20 +0000
Subject: [PATCH 28/29] fix: a day with a single timestep can be plotted by its
 date

---
 cosipy/postprocessing/field_plots/plot_cosipy_fields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cosipy/postprocessing/field_plots/plot_cosipy_fields.py b/cosipy/postprocessing/field_plots/plot_cosipy_fields.py
index 9305648..9003e30 100644
--- a/cosipy/postprocessing/field_plots/plot_cosipy_fields.py
+++ b/cosipy/postprocessing/field_plots/plot_cosipy_fields.py
@@ -55,6 +55,8 @@ def get_selection(
                 "Use `--mean` to plot the daily mean.",
             )
             raise KeyError(" ".join(error_message))
+        if "time" in data.dims:  # the only timestep of that day
+            data = data.squeeze("time")
     else:
         data = (
             array.resample(time="1D", skipna=True)
-- 
2.43.0


From 308fcf6a76d8d5e20712e3cf2172981e36f82fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:55 +0000
Subject: [PATCH 29/29] fix: keep the mass of layers which melt away entirely
 by penetrating radiation

---
 cosipy/modules/penetratingRadiation.py | 27 +++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/cosipy/modules/penetratingRadiation.py b/cosipy/modules/penetratingRadiation.py
index e53abc0..a785a5d 100644
--- a/cosipy/modules/penetratingRadiation.py
+++ b/cosipy/modules/penetratingRadiation.py
@@ -94,14 +94,31 @@ def method_Bintanja(GRID, SWnet: float, dt: int) -> tuple:
             dtheta_i = (water_density / ice_density) * -dtheta_w
             dh = -dtheta_i / GRID.get_node_ice_fraction(idxNode)
 
-            # The fraction refers to the height before the layer shrinks
-            subsurface_melt = subsurface_melt + dtheta_w * GRID.get_node_height(
-                idxNode
-            )
-
             if dh >= 1.0:
+                # No more than the layer's ice can melt, and its water
+                # drains to the layer underneath
+                melted_layer = (
+                    (ice_density / water_density)
+                    * GRID.get_node_ice_fraction(idxNode)
+                    * GRID.get_node_height(idxNode)
+                )
+                subsurface_melt = subsurface_melt + melted_layer
+                drained_water = (
+                    melted_layer
+                    + GRID.get_node_liquid_water_content(idxNode)
+                    * GRID.get_node_height(idxNode)
+                )
+                GRID.set_node_liquid_water_content(
+                    idxNode + 1,
+                    GRID.get_node_liquid_water_content(idxNode + 1)
+                    + drained_water / GRID.get_node_height(idxNode + 1),
+                )
                 list_of_layers_to_remove.append(idxNode)
             else:
+                # The fraction refers to the height before the layer shrinks
+                subsurface_melt = (
+                    subsurface_melt + dtheta_w * GRID.get_node_height(idxNode)
+                )
                 GRID.set_node_liquid_water_content(
                     idxNode,
                     GRID.get_node_liquid_water_content(idxNode) + dtheta_w,
-- 
2.43.0

