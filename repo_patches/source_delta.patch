From bd606125c6320ee0baf92bf02d7831668955a3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:59 +0000
Subject: [PATCH 01/48] fix: restart file lookup called strftime on
 numpy.datetime64

---
 cosipy/cpkernel/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index 302df91..e3498d7 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -137,7 +137,7 @@ class IOClass:
             time_end = Config.time_end
             start_timestamp = self.get_datetime(time_start)
             end_timestamp = self.get_datetime(time_end)
-            timestamp = start_timestamp.strftime("%Y-%m-%dT%H-%M")
+            timestamp = start_timestamp.item().strftime("%Y-%m-%dT%H-%M")
             restart_path = os.path.join(
                 Config.data_path, "restart", f"restart_{timestamp}.nc"
             )
-- 
2.43.0


From dcc75e260c9aac2cf8186129e4e3e501edd83af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:59 +0000
Subject: [PATCH 02/48] fix: load_snowpack did not find the fresh snow
 properties in restart files

---
 cosipy/cpkernel/init.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cosipy/cpkernel/init.py b/cosipy/cpkernel/init.py
index 264b5ec..872427f 100644
--- a/cosipy/cpkernel/init.py
+++ b/cosipy/cpkernel/init.py
@@ -129,9 +129,15 @@ def load_snowpack(GRID_RESTART):
     layer_LWC = GRID_RESTART.LAYER_LWC.values[0:num_layers]
     layer_IF = GRID_RESTART.LAYER_IF.values[0:num_layers]
 
-    new_snow_height = np.float64(GRID_RESTART.new_snow_height.values)
-    new_snow_timestamp = np.float64(GRID_RESTART.new_snow_timestamp.values)
-    old_snow_timestamp = np.float64(GRID_RESTART.old_snow_timestamp.values)
+    # Restart files use upper case names, WRF_X_CSPY uses lower case names
+    if hasattr(GRID_RESTART, "NEWSNOWHEIGHT"):
+        new_snow_height = np.float64(GRID_RESTART.NEWSNOWHEIGHT.values)
+        new_snow_timestamp = np.float64(GRID_RESTART.NEWSNOWTIMESTAMP.values)
+        old_snow_timestamp = np.float64(GRID_RESTART.OLDSNOWTIMESTAMP.values)
+    else:
+        new_snow_height = np.float64(GRID_RESTART.new_snow_height.values)
+        new_snow_timestamp = np.float64(GRID_RESTART.new_snow_timestamp.values)
+        old_snow_timestamp = np.float64(GRID_RESTART.old_snow_timestamp.values)
 
     GRID = create_grid_jitted(
         layer_heights,
-- 
2.43.0


From 98183bd6d939a7427d32fe26573f78b4ba960263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:59 +0000
Subject: [PATCH 03/48] fix: unsorted input was relabelled instead of sorted by
 time

---
 cosipy/cpkernel/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index e3498d7..04af830 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -281,7 +281,7 @@ class IOClass:
             raise SystemExit(f"Input file not found at: {input_path}")
 
 
-        self.DATA["time"] = np.sort(self.DATA["time"].values)
+        self.DATA = self.DATA.sortby("time")
         minimum_time = str(self.DATA.time.values[0])[0:16]
         maximum_time = str(self.DATA.time.values[-1])[0:16]
         start_interval = self.get_datetime(minimum_time)
-- 
2.43.0


From 5ae95ac2bb54c03c291270fbb45d93c738b8ca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:59 +0000
Subject: [PATCH 04/48] fix: reversed bounds made every SLOPE input fail the
 input check

---
 cosipy/cpkernel/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index 04af830..4a135a7 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -249,7 +249,7 @@ class IOClass:
             "PRES": (1080.0, 400.0),
             "LWin": (400.0, 200.0),
             "SNOWFALL": (0.1, 0.0),
-            "SLOPE": (0.0, 90.0),
+            "SLOPE": (90.0, 0.0),
         }
 
         for key, bounds in data_bounds.items():
-- 
2.43.0


From edba5861901f07444b311e0c1b09d825cad42a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:00 +0000
Subject: [PATCH 05/48] fix: units and long_name were swapped for absent RRR
 and N

---
 cosipy/cpkernel/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index 4a135a7..e214cbb 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -548,16 +548,16 @@ class IOClass:
                 self.RESULT,
                 np.full_like(self.DATA.T2, np.nan),
                 "RRR",
-                spatiotemporal["RRR"][1],
                 spatiotemporal["RRR"][0],
+                spatiotemporal["RRR"][1],
             )
         if "N" not in self.DATA:
             self.add_variable_along_latlontime(
                 self.RESULT,
                 np.full_like(self.DATA.T2, np.nan),
                 "N",
-                spatiotemporal["N"][1],
                 spatiotemporal["N"][0],
+                spatiotemporal["N"][1],
             )
 
         print(f"\nOutput dataset ... ok")
-- 
2.43.0


From 8f10b08c5d12157b5a1ab6afa864bf5a37be0768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:00 +0000
Subject: [PATCH 06/48] fix: default full-field output listed LW, which no run
 can produce

---
 config.toml                               | 2 +-
 cosipy/utilities/setup_cosipy/config.toml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/config.toml b/config.toml
index eaf9009..d3820f5 100644
--- a/config.toml
+++ b/config.toml
@@ -60,4 +60,4 @@ yend = 40
 # Select which output variables are written to disk. Comma-separated. Edit with caution.
 output_atm = "T2,RH2,U2,RAIN,SNOWFALL,RRR,PRES,N,G,LWin,LWout,H,LE,B,QRR,Z0,ALBEDO,TS"
 output_internal = "ME,MB,surfMB,intMB,EVAPORATION,SUBLIMATION,CONDENSATION,DEPOSITION,surfM,subM,Q,REFREEZE,SNOWHEIGHT,TOTALHEIGHT,LAYERS"
-output_full = "HEIGHT,RHO,T,LWC,CC,POROSITY,LW,ICE_FRACTION,IRREDUCIBLE_WATER,REFREEZE"
+output_full = "HEIGHT,RHO,T,LWC,CC,POROSITY,ICE_FRACTION,IRREDUCIBLE_WATER,REFREEZE"
diff --git a/cosipy/utilities/setup_cosipy/config.toml b/cosipy/utilities/setup_cosipy/config.toml
index eaf9009..d3820f5 100644
--- a/cosipy/utilities/setup_cosipy/config.toml
+++ b/cosipy/utilities/setup_cosipy/config.toml
@@ -60,4 +60,4 @@ yend = 40
 # Select which output variables are written to disk. Comma-separated. Edit with caution.
 output_atm = "T2,RH2,U2,RAIN,SNOWFALL,RRR,PRES,N,G,LWin,LWout,H,LE,B,QRR,Z0,ALBEDO,TS"
 output_internal = "ME,MB,surfMB,intMB,EVAPORATION,SUBLIMATION,CONDENSATION,DEPOSITION,surfM,subM,Q,REFREEZE,SNOWHEIGHT,TOTALHEIGHT,LAYERS"
-output_full = "HEIGHT,RHO,T,LWC,CC,POROSITY,LW,ICE_FRACTION,IRREDUCIBLE_WATER,REFREEZE"
+output_full = "HEIGHT,RHO,T,LWC,CC,POROSITY,ICE_FRACTION,IRREDUCIBLE_WATER,REFREEZE"
-- 
2.43.0


From 679c5ff3b74eb93aa8cc9cf871f405696ac1d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:00 +0000
Subject: [PATCH 07/48] fix: runs forced by SNOWFALL alone failed because RAIN
 was undefined

---
 cosipy/cpkernel/cosipy_core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cosipy/cpkernel/cosipy_core.py b/cosipy/cpkernel/cosipy_core.py
index b4aa2fb..51379b0 100644
--- a/cosipy/cpkernel/cosipy_core.py
+++ b/cosipy/cpkernel/cosipy_core.py
@@ -248,6 +248,7 @@ def cosipy_core(DATA, indY, indX, GRID_RESTART=None, stake_names=None, stake_dat
             RAIN = RRR[t]-SNOWFALL*(density_fresh_snow/water_density) * 1000.0
         elif SNOWF is not None:
             SNOWFALL = SNOWF[t]
+            RAIN = 0.0
         elif RRR is not None:
             # Else convert total precipitation [mm] to snowheight [m]; liquid/solid fraction
             SNOWFALL = (RRR[t]/1000.0)*(water_density/density_fresh_snow)*(0.5*(-np.tanh(((T2[t]-zero_temperature) - center_snow_transfer_function) * spread_snow_transfer_function) + 1.0))
-- 
2.43.0


From 7c885331d6c7ad87defbf52c18331c703a701b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:00 +0000
Subject: [PATCH 08/48] fix: clipping shortwave radiation modified the caller's
 input dataset

---
 cosipy/cpkernel/cosipy_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/cosipy_core.py b/cosipy/cpkernel/cosipy_core.py
index 51379b0..2eda939 100644
--- a/cosipy/cpkernel/cosipy_core.py
+++ b/cosipy/cpkernel/cosipy_core.py
@@ -170,7 +170,7 @@ def cosipy_core(DATA, indY, indX, GRID_RESTART=None, stake_names=None, stake_dat
     T2 = DATA.T2.values
     RH2 = DATA.RH2.values
     PRES = DATA.PRES.values
-    G = DATA.G.values
+    G = DATA.G.values.copy()
     U2 = DATA.U2.values
 
     #--------------------------------------------
-- 
2.43.0


From 73a02e52ca2e571504d337d30e3a9e028b0a427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:05 +0000
Subject: [PATCH 09/48] fix: subsurface melt was reported with the shrunken
 layer height

---
 cosipy/modules/penetratingRadiation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cosipy/modules/penetratingRadiation.py b/cosipy/modules/penetratingRadiation.py
index 0ce21f2..5c3e992 100644
--- a/cosipy/modules/penetratingRadiation.py
+++ b/cosipy/modules/penetratingRadiation.py
@@ -93,6 +93,8 @@ def method_Bintanja(GRID, SWnet: float, dt: int) -> tuple:
             dtheta_w = A * dT * GRID.get_node_ice_fraction(idxNode)
             dtheta_i = (water_density / ice_density) * -dtheta_w
             dh = -dtheta_i / GRID.get_node_ice_fraction(idxNode)
+            # dtheta_w refers to the layer's volume before it shrinks
+            layer_height = GRID.get_node_height(idxNode)
 
             if dh >= 1.0:
                 list_of_layers_to_remove.append(idxNode)
@@ -112,9 +114,7 @@ def method_Bintanja(GRID, SWnet: float, dt: int) -> tuple:
                     idxNode, LWC_temp / GRID.get_node_height(idxNode)
                 )
 
-            subsurface_melt = subsurface_melt + dtheta_w * GRID.get_node_height(
-                idxNode
-            )
+            subsurface_melt = subsurface_melt + dtheta_w * layer_height
         else:
             GRID.set_node_temperature(idxNode, T_rad)
 
-- 
2.43.0


From 7c29f2bbd62fbaaf90a6f32b2f50491f857f1c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:05 +0000
Subject: [PATCH 10/48] fix: Bougamont05 albedo divided the decay by the time
 step, leaving [0, 1]

---
 cosipy/modules/albedo.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cosipy/modules/albedo.py b/cosipy/modules/albedo.py
index 2e6afd3..2767f73 100644
--- a/cosipy/modules/albedo.py
+++ b/cosipy/modules/albedo.py
@@ -242,9 +242,8 @@ def method_Bougamont(GRID, surface_temperature: float, albedo_snow: float):
         temperature-dependant decay timescales."""
 
         # slightly faster than one-liner
-        t_star_days = float(t_star) * float(dt_days)
         delta_albedo = albedo_snow - albedo_firn
-        albedo_snow -= delta_albedo / t_star_days
+        albedo_snow -= delta_albedo * float(dt_days) / float(t_star)
 
         # Reset if snowfall in current timestep
         if hours_since_snowfall == 0:
-- 
2.43.0


From 04ebfca7a32e95a147378b0f6c0ff39fa410ebeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:05 +0000
Subject: [PATCH 11/48] fix: compaction (Boone, Vionnet) lost ice and water
 mass of wet layers

---
 cosipy/modules/densification.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/cosipy/modules/densification.py b/cosipy/modules/densification.py
index 0189c0f..12ed17f 100644
--- a/cosipy/modules/densification.py
+++ b/cosipy/modules/densification.py
@@ -146,15 +146,10 @@ def method_Boone(GRID, SLOPE, dt):
             # Rate of change in the density
             dRho = (((M_s*9.81)/eta) + c1*np.exp(-c2*(zero_temperature-t[idxNode]) - c3*np.maximum(0.0,rho[idxNode]-rho0)))*dt
            
-            # Calc changes in volumetric fractions of ice and water
-            # No water in layer
-            if lwc[idxNode] == 0.0:
-                dtheta_i = dRho
-                dtheta_w = 0.0
-            # layer contains water
-            else:
-                dtheta_i = (dRho/2.0)
-                dtheta_w = (dRho/2.0)
+            # Calc changes in volumetric fractions of ice and water, which
+            # conserve the mass of both in the compacted layer
+            dtheta_i = dRho/(1-dRho)
+            dtheta_w = dtheta_i
             
             # Set new fractions
             GRID.set_node_ice_fraction(idxNode, (1+dtheta_i) * icf[idxNode])
@@ -215,15 +210,10 @@ def method_Vionnet(GRID, SLOPE, dt):
             # Rate of change for the density
             # dRho = dD*rho[idxNode]
             
-            # Calc changes in volumetric fractions of ice and water
-            # No water in layer
-            if lwc[idxNode]==0.0:
-                dtheta_i = -dD
-                dtheta_w = 0.0
-            # layer contains water
-            else:
-                dtheta_i = -dD/2.0
-                dtheta_w = -dD/2.0
+            # Calc changes in volumetric fractions of ice and water, which
+            # conserve the mass of both in the compacted layer
+            dtheta_i = -dD/(1+dD)
+            dtheta_w = dtheta_i
 
             # Set new volumetric fractions
             GRID.set_node_ice_fraction(idxNode, (1+dtheta_i) * icf[idxNode])
-- 
2.43.0


From 8cccbcb820c3b169de9bfbfa1c4a62cb65d6b831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:05 +0000
Subject: [PATCH 12/48] fix: Vionnet densification took the slope angle in
 degrees as radians

---
 cosipy/modules/densification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/modules/densification.py b/cosipy/modules/densification.py
index 12ed17f..da5b2c1 100644
--- a/cosipy/modules/densification.py
+++ b/cosipy/modules/densification.py
@@ -199,10 +199,10 @@ def method_Vionnet(GRID, SLOPE, dt):
 
             # Vertical stress
             if idxNode>0:
-                sigma = sigma + 9.81*np.cos(SLOPE)*rho[idxNode-1]*height[idxNode-1]
+                sigma = sigma + 9.81*np.cos(np.radians(SLOPE))*rho[idxNode-1]*height[idxNode-1]
             elif idxNode==0:
                 # Take only half layer height of the first layer
-                sigma = sigma + 9.81*np.cos(SLOPE)*rho[0]*(height[0]/2.0)
+                sigma = sigma + 9.81*np.cos(np.radians(SLOPE))*rho[0]*(height[0]/2.0)
 
             # Rate of change for the layer height
             dD = (-sigma/eta)*dt 
-- 
2.43.0


From c7eb49ef85a91fa5ec8a4f82ecdaa9650dc8cbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:05 +0000
Subject: [PATCH 13/48] fix: empirical compaction turned air and water mass
 into ice

---
 cosipy/modules/densification.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cosipy/modules/densification.py b/cosipy/modules/densification.py
index da5b2c1..d3e7407 100644
--- a/cosipy/modules/densification.py
+++ b/cosipy/modules/densification.py
@@ -248,8 +248,10 @@ def method_empirical(GRID, SLOPE, dt):
         dRho = (1/tau) * (rho_max-GRID.get_node_density(idxNode)) * dt
 
         if (1 - (dRho / GRID.get_node_density(idxNode))) < 1:
-            # Set the new ice fraction
-            GRID.set_node_ice_fraction(idxNode, (rho_max + (rho[idxNode]-rho_max) * np.exp(-dt/tau))/Constants.ice_density )
+            # Ratio of the new to the old density
+            compaction = (rho_max + (rho[idxNode]-rho_max) * np.exp(-dt/tau)) / rho[idxNode]
 
-            # Set height change
-            GRID.set_node_height(idxNode, (1-(dRho/GRID.get_node_density(idxNode)))*GRID.get_node_height(idxNode))
+            # Set the new fractions and the height, conserving ice and water mass
+            GRID.set_node_ice_fraction(idxNode, compaction*GRID.get_node_ice_fraction(idxNode))
+            GRID.set_node_liquid_water_content(idxNode, compaction*GRID.get_node_liquid_water_content(idxNode))
+            GRID.set_node_height(idxNode, GRID.get_node_height(idxNode)/compaction)
-- 
2.43.0


From ecad212d940f257ac1b215d89f93f36005cafd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:09 +0000
Subject: [PATCH 14/48] fix: splitting a wet layer concentrated its water
 beyond a volume fraction of 1

---
 cosipy/cpkernel/grid.py | 33 ++++-----------------------------
 1 file changed, 4 insertions(+), 29 deletions(-)

diff --git a/cosipy/cpkernel/grid.py b/cosipy/cpkernel/grid.py
index 94072a1..f657e77 100644
--- a/cosipy/cpkernel/grid.py
+++ b/cosipy/cpkernel/grid.py
@@ -297,35 +297,10 @@ class Grid:
             h0 = min_height
             h1 = total_height - min_height
 
-            """Update liquid water content.
-            Fills the upper layer with water until maximum retention.
-            The remaining water is assigned to the second layer.
-            If LWC exceeds the irreducible water content of the first
-            layer, then the first layer is filled and the rest assigned
-            to the second layer.
-            """
-            if (
-                self.get_node_liquid_water_content(idx)
-                - self.get_node_irreducible_water_content(idx)
-            ) > 0:
-                lw0 = self.get_node_irreducible_water_content(
-                    idx
-                ) * self.get_node_height(idx)
-                lw1 = self.get_node_liquid_water_content(
-                    idx
-                ) * self.get_node_height(
-                    idx
-                ) - self.get_node_irreducible_water_content(
-                    idx
-                ) * self.get_node_height(
-                    idx
-                )
-            # if LWC<WC_irr, then assign all water to the first layer
-            else:
-                lw0 = self.get_node_liquid_water_content(
-                    idx
-                ) * self.get_node_height(idx)
-                lw1 = 0.0
+            # Update liquid water content. Both parts of a split layer keep its
+            # volumetric water content, so that no volume fraction exceeds 1.
+            lw0 = self.get_node_liquid_water_content(idx) * h0
+            lw1 = self.get_node_liquid_water_content(idx) * h1
 
             # Update ice fraction
             if0 = self.get_node_ice_fraction(idx)
-- 
2.43.0


From b3ca211872b6ba70c0c8fe079c5f3a75648f94ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:31 +0000
Subject: [PATCH 15/48] fix: split_node lost half of the layer's liquid water

---
 cosipy/cpkernel/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/cpkernel/grid.py b/cosipy/cpkernel/grid.py
index f657e77..7224480 100644
--- a/cosipy/cpkernel/grid.py
+++ b/cosipy/cpkernel/grid.py
@@ -477,7 +477,7 @@ class Grid:
                 self.get_node_height(pos) / 2.0,
                 self.get_node_density(pos),
                 self.get_node_temperature(pos),
-                self.get_node_liquid_water_content(pos) / 2.0,
+                self.get_node_liquid_water_content(pos),
                 self.get_node_ice_fraction(pos),
             ),
         )
@@ -486,7 +486,7 @@ class Grid:
             self.get_node_height(pos) / 2.0,
             self.get_node_temperature(pos),
             self.get_node_ice_fraction(pos),
-            self.get_node_liquid_water_content(pos) / 2.0,
+            self.get_node_liquid_water_content(pos),
         )
 
         self.number_nodes += 1
-- 
2.43.0


From 5a8476396ebfe3f39c56264dfb564b9235217210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:02 +0000
Subject: [PATCH 16/48] fix: liquid water of fully melted layers was counted
 twice

---
 cosipy/cpkernel/grid.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cosipy/cpkernel/grid.py b/cosipy/cpkernel/grid.py
index 7224480..def0d11 100644
--- a/cosipy/cpkernel/grid.py
+++ b/cosipy/cpkernel/grid.py
@@ -624,13 +624,13 @@ class Grid:
                 melt = 0.0
             # remove layer otherwise and continue loop
             elif melt >= SWE:
-                lwc_from_layers = (
-                    lwc_from_layers
-                    + self.get_node_liquid_water_content(idx)
-                    * self.get_node_height(idx)
-                )
+                lwc_from_layer = self.get_node_liquid_water_content(
+                    idx
+                ) * self.get_node_height(idx)
+                lwc_from_layers = lwc_from_layers + lwc_from_layer
                 self.remove_node([idx])
-                melt = melt - SWE
+                # Water which was already liquid is returned, not melted
+                melt = melt - (SWE - lwc_from_layer)
 
         # Keep track of the fresh snow layer
         if idx == 0:
-- 
2.43.0


From 717ec0e2524ca313d343232e4672c366fdfa02b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:54 +0000
Subject: [PATCH 17/48] fix: layers melted through by penetrating radiation
 lost their water

---
 cosipy/modules/penetratingRadiation.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cosipy/modules/penetratingRadiation.py b/cosipy/modules/penetratingRadiation.py
index 5c3e992..2040cd5 100644
--- a/cosipy/modules/penetratingRadiation.py
+++ b/cosipy/modules/penetratingRadiation.py
@@ -97,6 +97,19 @@ def method_Bintanja(GRID, SWnet: float, dt: int) -> tuple:
             layer_height = GRID.get_node_height(idxNode)
 
             if dh >= 1.0:
+                # No more ice than the layer holds can melt; all its water
+                # drains into the layer below
+                dtheta_w = (
+                    ice_density / water_density
+                ) * GRID.get_node_ice_fraction(idxNode)
+                water = (
+                    GRID.get_node_liquid_water_content(idxNode) + dtheta_w
+                ) * layer_height
+                GRID.set_node_liquid_water_content(
+                    idxNode + 1,
+                    GRID.get_node_liquid_water_content(idxNode + 1)
+                    + water / GRID.get_node_height(idxNode + 1),
+                )
                 list_of_layers_to_remove.append(idxNode)
             else:
                 GRID.set_node_liquid_water_content(
-- 
2.43.0


From 7d2fb1ab59d875806658c6b21f89697f53641531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:00 +0000
Subject: [PATCH 18/48] fix: fallback of the surface temperature solver
 minimised the signed residual

---
 cosipy/modules/surfaceTemperature.py | 43 ++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/cosipy/modules/surfaceTemperature.py b/cosipy/modules/surfaceTemperature.py
index f952c0f..c498b63 100644
--- a/cosipy/modules/surfaceTemperature.py
+++ b/cosipy/modules/surfaceTemperature.py
@@ -1,6 +1,6 @@
 import numpy as np
 from numba import njit
-from scipy.optimize import minimize, newton
+from scipy.optimize import brentq, minimize, newton
 
 from cosipy.config import Config
 from cosipy.constants import Constants
@@ -90,10 +90,11 @@ def update_surface_temperature(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLO
             check_residual_clip(residual=res, lower_bound=lower_bnd_ts)
 
         except (RuntimeError,ValueError):
-             # Workaround for non-convergence and unboundedness
-             res = minimize(eb_optim, initial_guess, method='SLSQP',
-                       bounds=((lower_bnd_ts, upper_bnd_ts),),tol=1e-2,
-                       args=(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
+            # Workaround for non-convergence and unboundedness
+            res = bounded_root(
+                lower_bnd_ts, zero_temperature,
+                (GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N),
+            )
     elif sfc_temperature_method == 'Secant':
         try:
             res = call_secant_jitted(
@@ -103,9 +104,10 @@ def update_surface_temperature(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLO
 
         except (RuntimeError, ValueError):
             # Workaround for non-convergence and unboundedness
-            res = minimize(eb_optim, initial_guess, method='SLSQP',
-                           bounds=((lower_bnd_ts, zero_temperature),), tol=1e-2,
-                           args=(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
+            res = bounded_root(
+                lower_bnd_ts, zero_temperature,
+                (GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N),
+            )
     else:
         raise NotImplementedError('Invalid method for minimizing the residual.')
 
@@ -555,6 +557,31 @@ def eb_optim(
 # fmt: on
 
 
+def bounded_root(lower: float, upper: float, args: tuple) -> np.ndarray:
+    """Solve for the surface temperature within physical bounds.
+
+    Fallback for when a root finder fails to converge or leaves the bounds.
+
+    Args:
+        lower: Minimum allowable surface temperature [K].
+        upper: Maximum allowable surface temperature [K].
+        args: Additional arguments for `eb_optim`.
+
+    Returns:
+        Surface temperature: the root of the energy balance, or the bound
+        nearest to it if there is no root within the bounds.
+    """
+
+    def residual(temperature):
+        return float(eb_optim(np.array([temperature]), *args))
+
+    if residual(upper) >= 0.0:  # surplus of energy: melting surface
+        return np.array([upper])
+    if residual(lower) <= 0.0:
+        return np.array([lower])
+    return np.array([brentq(residual, lower, upper, xtol=1e-2)])
+
+
 @njit
 def method_EW_Sonntag(T: float) -> float:
     """Get the saturation vapor pressure.
-- 
2.43.0


From 33cf53a762dad68385d4e72aebcb87a84de36024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:46 +0000
Subject: [PATCH 19/48] fix: surface temperature solvers accepted temperatures
 that do not close the balance

---
 cosipy/modules/secant.py             |  2 +-
 cosipy/modules/surfaceTemperature.py | 25 +++++++++++++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/cosipy/modules/secant.py b/cosipy/modules/secant.py
index f399886..82f0e83 100644
--- a/cosipy/modules/secant.py
+++ b/cosipy/modules/secant.py
@@ -49,7 +49,7 @@ def secant(func, x0, args=(), tol=1.48e-8, maxiter=50, x1=None, rtol=0.0):
         q1 = func(p1, *args)
         funcalls += 1
 
-    return p
+    raise RuntimeError("Secant method failed to converge")
 
 
 # EC2021: to be removed when numba supports np.isclose (next release)
diff --git a/cosipy/modules/surfaceTemperature.py b/cosipy/modules/surfaceTemperature.py
index c498b63..dc56e00 100644
--- a/cosipy/modules/surfaceTemperature.py
+++ b/cosipy/modules/surfaceTemperature.py
@@ -88,6 +88,7 @@ def update_surface_temperature(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLO
             res = newton(eb_optim, np.array([initial_guess]), tol=1e-2, maxiter=50,
                         args=(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
             check_residual_clip(residual=res, lower_bound=lower_bnd_ts)
+            check_energy_balance(res, (GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
 
         except (RuntimeError,ValueError):
             # Workaround for non-convergence and unboundedness
@@ -101,6 +102,7 @@ def update_surface_temperature(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLO
                 GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, lower_bnd_ts, LWin, N, 
             )
             check_residual_clip(residual=res, lower_bound=lower_bnd_ts)
+            check_energy_balance(res, (GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
 
         except (RuntimeError, ValueError):
             # Workaround for non-convergence and unboundedness
@@ -557,6 +559,29 @@ def eb_optim(
 # fmt: on
 
 
+def check_energy_balance(solution: np.ndarray, args: tuple) -> bool:
+    """Raise error if the surface temperature does not close the balance.
+
+    The root finders stop on small steps, which also occur next to the pole
+    of the mixing ratio and between kinks of the stability correction.
+
+    Args:
+        solution: Surface temperature solution [K].
+        args: Additional arguments for `eb_optim`.
+
+    Returns:
+        True if the surface temperature solves the energy balance, or if the
+        surface is melting.
+
+    Raises:
+        ValueError: The residual exceeds 1 W m^-2.
+    """
+    if solution.item() < zero_temperature:
+        if not abs(float(eb_optim(solution, *args))) <= 1.0:
+            raise ValueError("TS solution does not close the energy balance.")
+    return True
+
+
 def bounded_root(lower: float, upper: float, args: tuple) -> np.ndarray:
     """Solve for the surface temperature within physical bounds.
 
-- 
2.43.0


From e0a61d4f73eb1a81134c0f1d52b5599579eecc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:23 +0000
Subject: [PATCH 20/48] fix: a restart with exactly one remaining time step was
 refused as having no new data

---
 cosipy/cpkernel/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index e214cbb..d6a1e0b 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -314,8 +314,8 @@ class IOClass:
             )
             self.DATA = self.DATA.sel(time=slice(time_start, time_end))
         else:
-            # There is nothing to do if the dates are equal
-            if self.restart_date == end_time:
+            # There is nothing to do if no step is left after the restart state
+            if self.restart_date > end_time:
                 raise SystemExit("Start date equals end date ... no new data ... EXIT")
             else:
                 # otherwise, run the model from the restart date to the defined end date
-- 
2.43.0


From e6995b211af72f7ac3cdc34162a61f594117d85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:23 +0000
Subject: [PATCH 21/48] fix: WRF cells were looked up by coordinate label
 instead of position

---
 COSIPY.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/COSIPY.py b/COSIPY.py
index bf02ce8..2e44eea 100644
--- a/COSIPY.py
+++ b/COSIPY.py
@@ -223,20 +223,20 @@ def run_cosipy(cluster, IO, DATA, RESULT, RESTART, futures):
                 stake_names = None
 
             if Config.WRF:
-                mask = DATA.MASK.sel(south_north=y, west_east=x)
+                mask = DATA.MASK.isel(south_north=y, west_east=x)
                 # Provide restart grid if necessary
                 if (mask == 1) and (not Config.restart):
-                    check_for_nan(data=DATA.sel(south_north=y, west_east=x))
-                    futures.append(client.submit(cosipy_core, DATA.sel(south_north=y, west_east=x), y, x, stake_names=stake_names, stake_data=df_stakes_data))
+                    check_for_nan(data=DATA.isel(south_north=y, west_east=x))
+                    futures.append(client.submit(cosipy_core, DATA.isel(south_north=y, west_east=x), y, x, stake_names=stake_names, stake_data=df_stakes_data))
                 elif (mask == 1) and (Config.restart):
-                    check_for_nan(data=DATA.sel(south_north=y, west_east=x))
+                    check_for_nan(data=DATA.isel(south_north=y, west_east=x))
                     futures.append(
                         client.submit(
                             cosipy_core,
-                            DATA.sel(south_north=y, west_east=x),
+                            DATA.isel(south_north=y, west_east=x),
                             y,
                             x,
-                            GRID_RESTART=IO.create_grid_restart().sel(
+                            GRID_RESTART=IO.create_grid_restart().isel(
                                 south_north=y,
                                 west_east=x,
                             ),
-- 
2.43.0


From 3b432a2411001c0fb932c76ef4141e0ccac5714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:58 +0000
Subject: [PATCH 22/48] fix: stakes outside the glacier got their measurements
 reported as simulation

---
 COSIPY.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/COSIPY.py b/COSIPY.py
index 2e44eea..6e5fe73 100644
--- a/COSIPY.py
+++ b/COSIPY.py
@@ -183,7 +183,9 @@ def run_cosipy(cluster, IO, DATA, RESULT, RESTART, futures):
 
             # Init dataframes to store evaluation statistics
             df_stat = pd.DataFrame()
-            df_val = df_stakes_data.copy()
+            df_val = pd.DataFrame(
+                np.nan, index=df_stakes_data.index, columns=df_stakes_data.columns
+            )
 
             # reshape and stack coordinates
             if Config.WRF:
-- 
2.43.0


From 492d29d6c6acd37147f39a4d508eff243c3ab99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:03 +0000
Subject: [PATCH 23/48] fix: solar azimuth was scaled outside the arccosine

The quotient (sin(lat) cos(zeni) - sin(dec)) / (cos(lat) sin(zeni)) has
to be inside acos(); with the misplaced parenthesis the sun stood at 60
degrees instead of due south at noon (45N, equinox).
---
 cosipy/modules/radCor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index ff81a0c..49770f0 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -55,7 +55,10 @@ def solarFParallel(lat:float, lon:float, timezone_lon:float, day:int, hour:float
     zeni = math.pi/2.0 - beta
     
     # Azimuth angle (radians)
-    azi = math.acos((math.sin(lat * FAC) * math.cos(zeni) - math.sin(dec)))/math.cos(lat*FAC)*math.sin(zeni)
+    cos_azi = (math.sin(lat * FAC) * math.cos(zeni) - math.sin(dec)) / (
+        math.cos(lat * FAC) * math.sin(zeni)
+    )
+    azi = math.acos(max(-1.0, min(1.0, cos_azi)))
     
     if solartime < solarnoon:
         azi = azi * -1.0
-- 
2.43.0


From 7732da420dad10109cb704a918b7fb91b6064599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:03 +0000
Subject: [PATCH 24/48] fix: longitude and equation of time cancelled out of
 the sun's hour angle

Solar noon comes later west of the standard meridian (LC > 0).  Both
terms were also subtracted from the local time, so they had no effect.
---
 cosipy/modules/radCor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index 49770f0..9d8bb6e 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -44,8 +44,8 @@ def solarFParallel(lat:float, lon:float, timezone_lon:float, day:int, hour:float
     LC = (timezone_lon - lon) / 15.0
 
     # Solar noon (hours) / solar time (hours)
-    solarnoon = 12.0 - LC - timeEq 
-    solartime = hour - LC - timeEq
+    solarnoon = 12.0 + LC - timeEq
+    solartime = hour
 
     # Solar elevation
     beta = math.asin(math.sin(lat * FAC) * math.sin(dec) + math.cos(lat * FAC) * 
-- 
2.43.0


From 60d4330a0fd579348217dad1cf21aec9d8e67093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:03 +0000
Subject: [PATCH 25/48] fix: Moelg2009 radiation raised an error with metpy >=
 1.0

The arguments of mixing_ratio_from_relative_humidity were given in the
order of metpy 0.x.
---
 cosipy/modules/radCor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index 9d8bb6e..53cd767 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -464,7 +464,7 @@ def calcRad(solPars, timecorr, doy, hour, lat, tempgrid, pgrid, rhgrid, cldgrid,
     swidiff = np.full_like(elvgrid, np.nan)
 
     # Mixing ratio from RH and Pres
-    mixing_interp = metpy.calc.mixing_ratio_from_relative_humidity(rhgrid * units.percent, tempgrid * units.kelvin, pgrid * units.hPa)
+    mixing_interp = metpy.calc.mixing_ratio_from_relative_humidity(pgrid * units.hPa, tempgrid * units.kelvin, rhgrid * units.percent)
     vp_interp = np.array(metpy.calc.vapor_pressure(pgrid * units.hPa, mixing_interp))
 
     # Solar geometries
-- 
2.43.0


From fe829c2dfb2c9d6807f2deaca5fc00bccd6f725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:03 +0000
Subject: [PATCH 26/48] fix: Moelg2009 radiation failed beyond the polar
 circles

The sunrise hour angle is 0 or 180 degrees in polar night and day.
---
 cosipy/modules/radCor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index 53cd767..7c8085a 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -215,7 +215,8 @@ def solpars(lat):
         solparam[j, 2] = 1.00011 + 0.034221 * math.cos(tau) + 0.00128 * math.sin(tau) + 0.000719 * math.cos(2*tau) + 0.000077 * math.sin(2 * tau)
         solparam[j, 3] = 0.006918 - 0.399912 * math.cos(tau) + 0.070257 * math.sin(tau) - 0.006758 * math.cos(2*tau) + 0.000907 * math.sin(2 * tau) - 0.002697 * math.cos(3 * tau) + 0.00148 * math.sin(3 * tau)
         solparam[j, 4] = solparam[j, 3] * 180 / math.pi
-        solparam[j, 5] = math.acos(-math.tan(lat * math.pi / 180) * math.tan(solparam[j, 3])) * 180 / math.pi
+        cos_sunrise = -math.tan(lat * math.pi / 180) * math.tan(solparam[j, 3])
+        solparam[j, 5] = math.acos(max(-1.0, min(1.0, cos_sunrise))) * 180 / math.pi
         solparam[j, 6] = 2 / 15 * solparam[j, 5]
 
     # Duplicate line 365 for years with 366 days
-- 
2.43.0


From 05f78f55c56c8e7b7b7d19c54d5c343734e9076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:03 +0000
Subject: [PATCH 27/48] fix: topographic shading failed next to the edge of
 non-square grids

The profile towards the sun has no further point if the edge is closer
than the step length.
---
 cosipy/modules/radCor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index 7c8085a..0e231b4 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -312,7 +312,7 @@ def relshad(dem, mask, lats, lons, solh, sdirfn):
                 # Topography angle
                 Hang = np.degrees(np.arctan((zi[1:len(zi)] - zi[0]) / distance[1:len(distance)]))
 
-                if np.max(Hang) > solh:
+                if np.max(Hang, initial=-np.inf) > solh:
                     illu[idy[0], idx[0]] = 0
                 else:
                     illu[idy[0], idx[0]] = 1
-- 
2.43.0


From 6ecfa10dfa9855b23520ab18aef0f656d50e1f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:03 +0000
Subject: [PATCH 28/48] fix: shading table used another solar time than the
 radiation

calcRad() centres the sun on the time step; the look-up table always
assumed hourly steps, an hour off for 3-hourly ones.
---
 cosipy/modules/radCor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index 0e231b4..9c7dd5b 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -355,7 +355,7 @@ def LUTshad(solpars, timecorr, lat, elvgrid, maskgrid, lats, lons, STEP, TCART):
         for hod in np.arange(0, 24, int(STEP / 3600)):
 
             # calculate solar geometries
-            stime = 180 + (15 / 2) - hod * 15 - tcorr + TCART
+            stime = 180 + (STEP / 3600 * 15 / 2) - hod * 15 - tcorr + TCART
             sin_h = math.sin(soldec) * math.sin(lat * math.pi / 180) + math.cos(soldec) * math.cos(lat * math.pi / 180) * \
                     math.cos(stime * math.pi / 180)
             cos_sol_azi = (sin_h * math.sin(lat * math.pi / 180) - math.sin(soldec)) / math.cos(math.asin(sin_h)) / \
-- 
2.43.0


From 40e8086165664b01e9193198edd72744684de5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:03 +0000
Subject: [PATCH 29/48] fix: point pressure was changed even at the height of
 the station

Reduction to sea level and back used different exponents.
---
 cosipy/utilities/aws2cosipy/aws2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/aws2cosipy/aws2cosipy.py b/cosipy/utilities/aws2cosipy/aws2cosipy.py
index e2c4208..25999a1 100644
--- a/cosipy/utilities/aws2cosipy/aws2cosipy.py
+++ b/cosipy/utilities/aws2cosipy/aws2cosipy.py
@@ -233,7 +233,7 @@ def get_pressure_bias(data, height):
     slp = data / np.power(
         (1 - (0.0065 * _cfg.station["stationAlt"]) / (288.15)), 5.255
     )
-    pressure = slp * np.power((1 - (0.0065 * height) / (288.15)), 5.22)
+    pressure = slp * np.power((1 - (0.0065 * height) / (288.15)), 5.255)
 
     return pressure
 
-- 
2.43.0


From f8a5a9e2a17ff99e50ee1e0d515d75699265963f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:06 +0000
Subject: [PATCH 30/48] fix: shading table mirrored the midnight sun

The hour angle exceeds 180 degrees shortly after midnight (and with the
station's time correction); its sign does not tell east from west there.
---
 cosipy/modules/radCor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index 9c7dd5b..e788ae6 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -361,7 +361,7 @@ def LUTshad(solpars, timecorr, lat, elvgrid, maskgrid, lats, lons, STEP, TCART):
             cos_sol_azi = (sin_h * math.sin(lat * math.pi / 180) - math.sin(soldec)) / math.cos(math.asin(sin_h)) / \
                     math.cos(lat * math.pi / 180)
 
-            if stime > 0:
+            if math.sin(stime * math.pi / 180) > 0:
                 solar_az = math.acos(cos_sol_azi) * 180 / math.pi
             else:
                 solar_az = math.acos(cos_sol_azi) * 180 / math.pi * (-1)
-- 
2.43.0


From ee976e273563e00cfece83dae23d686c00089559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:06 +0000
Subject: [PATCH 31/48] fix: modelled radiation became negative with the sun at
 the horizon

The transmissivities' parameterisation leaves its range for very long
optical paths, where the diffuse part drops slightly below zero.
---
 cosipy/modules/radCor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index e788ae6..a96776f 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -546,8 +546,10 @@ def calcRad(solPars, timecorr, doy, hour, lat, tempgrid, pgrid, rhgrid, cldgrid,
         )  # diffuse amount as percentage of direct rad.
         swidiff[cldgrid == 0.0] = Dcs[cldgrid == 0.0] * gridsvf[cldgrid == 0.0]
         # all-sky solar radiation at surface
-        swiasky[:, :] = swidir0 * (1 - (1 - dirovc) * cldgrid) + swidiff
-        
+        swiasky[:, :] = np.maximum(
+            swidir0 * (1 - (1 - dirovc) * cldgrid) + swidiff, 0.0
+        )
+
     else:
         # TOAR = 0.0
         swiasky[maskgrid == 1] = 0 * elvgrid[maskgrid == 1]
-- 
2.43.0


From 69291a2b5c5f67e743169ac64b83407d17c221e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:26 +0000
Subject: [PATCH 32/48] fix: point data in the WRF layout had swapped
 coordinates and other dimensions

The latitude variable held the longitude, and the fields were defined on
(lat, lon) although COSIPY reads (south_north, west_east).
---
 cosipy/utilities/aws2cosipy/aws2cosipy.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cosipy/utilities/aws2cosipy/aws2cosipy.py b/cosipy/utilities/aws2cosipy/aws2cosipy.py
index 25999a1..bcc7cd4 100644
--- a/cosipy/utilities/aws2cosipy/aws2cosipy.py
+++ b/cosipy/utilities/aws2cosipy/aws2cosipy.py
@@ -214,8 +214,8 @@ def get_variable_metadata(name: str) -> dict:
 def set_dataset_coordinates(dataset, latitude, longitude):
 
     x, y = np.meshgrid(longitude, latitude)
-    dataset.coords["lat"] = (("south_north", "west_east"), x)
-    dataset.coords["lon"] = (("south_north", "west_east"), y)
+    dataset.coords["lat"] = (("south_north", "west_east"), y)
+    dataset.coords["lon"] = (("south_north", "west_east"), x)
 
     return dataset
 
@@ -305,8 +305,8 @@ def create_1D_input(cs_file, cosipy_file, static_file, start_date, end_date):
     if _cfg.coords["WRF"]:
         ds = xr.Dataset()
         lon, lat = np.meshgrid(_cfg.points["plon"], _cfg.points["plat"])
-        ds.coords["lat"] = (("south_north", "west_east"), lon)
-        ds.coords["lon"] = (("south_north", "west_east"), lat)
+        ds.coords["lat"] = (("south_north", "west_east"), lat)
+        ds.coords["lon"] = (("south_north", "west_east"), lon)
 
     else:
         if static_file:
@@ -814,7 +814,8 @@ def add_variable_along_latlon(ds, var, name, units, long_name):
 
 def add_variable_along_timelatlon_point(ds, var, name, units, long_name):
     """Add spatiotemporal point data to a dataset."""
-    ds[name] = (("time", "lat", "lon"), np.reshape(var, (len(var), 1, 1)))
+    dims = ("south_north", "west_east") if _cfg.coords["WRF"] else ("lat", "lon")
+    ds[name] = (("time", *dims), np.reshape(var, (len(var), 1, 1)))
     ds[name].attrs["units"] = units
     ds[name].attrs["long_name"] = long_name
     return ds
@@ -822,7 +823,8 @@ def add_variable_along_timelatlon_point(ds, var, name, units, long_name):
 
 def add_variable_along_point(ds, var, name, units, long_name):
     """Add point data to a dataset."""
-    ds[name] = (("lat", "lon"), np.reshape(var, (1, 1)))
+    dims = ("south_north", "west_east") if _cfg.coords["WRF"] else ("lat", "lon")
+    ds[name] = (dims, np.reshape(var, (1, 1)))
     ds[name].attrs["units"] = units
     ds[name].attrs["long_name"] = long_name
     return ds
-- 
2.43.0


From b6ae786724424b411a6ce694bff1f7ca22fde05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:06 +0000
Subject: [PATCH 33/48] fix: generated utilities configuration lacked the path
 of the look-up tables

Converting station data with the radiation module Moelg2009 raised a
KeyError with a configuration generated by cosipy-setup.
---
 cosipy/utilities/setup_cosipy/utilities_config.toml | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cosipy/utilities/setup_cosipy/utilities_config.toml b/cosipy/utilities/setup_cosipy/utilities_config.toml
index f358b03..c6defc3 100644
--- a/cosipy/utilities/setup_cosipy/utilities_config.toml
+++ b/cosipy/utilities/setup_cosipy/utilities_config.toml
@@ -31,6 +31,7 @@ delimiter = ','
 [aws2cosipy.radiation]
 radiationModule = 'Wohlfahrt2016' # 'Moelg2009', 'Wohlfahrt2016', 'none'
 LUT = false  # If there is already a Look-up-table for topographic shading and sky-view-factor built for this area, set to True
+LUT_path = "./data/static/LUT_Rad.nc"
 dtstep = 10800  # time step (s)
 tcart = 26  # Station time correction in hour angle units (1 is 4 min)
 timezone_lon = 90.0  # Longitude of station
-- 
2.43.0


From e15fb2737d6bf05d63e202658c93401c0514c434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:18 +0000
Subject: [PATCH 34/48] fix: converting WRF output failed with current xarray

DataArrays cannot be used to construct variables of other dimensions.  The
glacier mask is now computed instead of overwriting the land use field.
---
 cosipy/utilities/wrf2cosipy/wrf2cosipy.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
index 67bfef4..06f930b 100644
--- a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
+++ b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
@@ -72,11 +72,11 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
     dso = add_variable_along_timelatlon(dso, ds.SWDOWN.values, 'G', 'W m^-2', 'Incoming shortwave radiation')
     dso = add_variable_along_timelatlon(dso, ds.GLW.values, 'LWin', 'W m^-2', 'Incoming longwave radiation')
     dso = add_variable_along_timelatlon(dso, ds.PSFC.values/100.0, 'PRES', 'hPa', 'Atmospheric Pressure')
-    dso = add_variable_along_latlon(dso, ds.SNOWH[0], 'SNOWHEIGHT', 'm', 'Initial snowheight')
-    dso = add_variable_along_latlon(dso, ds.SNOW[0], 'SWE', 'kg m^-2', 'Snow Water Equivalent')
-    dso = add_variable_along_latlon(dso, ds.SNOWC[0], 'SNOWC', '-', 'Flag indicating snow coverage (1 for snow cover)')
-    dso = add_variable_along_latlon(dso, ds.LU_INDEX[0], 'LU_INDEX', '-', 'Land use category')
-    dso = add_variable_along_latlon(dso, ds.TSK[0], 'TSK', 'K', 'Skin temperature')
+    dso = add_variable_along_latlon(dso, ds.SNOWH[0].values, 'SNOWHEIGHT', 'm', 'Initial snowheight')
+    dso = add_variable_along_latlon(dso, ds.SNOW[0].values, 'SWE', 'kg m^-2', 'Snow Water Equivalent')
+    dso = add_variable_along_latlon(dso, ds.SNOWC[0].values, 'SNOWC', '-', 'Flag indicating snow coverage (1 for snow cover)')
+    dso = add_variable_along_latlon(dso, ds.LU_INDEX[0].values, 'LU_INDEX', '-', 'Land use category')
+    dso = add_variable_along_latlon(dso, ds.TSK[0].values, 'TSK', 'K', 'Skin temperature')
     
     # Wind velocity at 2 m (assuming neutral stratification)
     z  = _cfg.constants["hu"]     # Height of measurement
@@ -86,9 +86,7 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
     dso = add_variable_along_timelatlon(dso, U2, 'U2', 'm s^-1', 'Wind velocity at 2 m')
 
     # Add glacier mask to file (derived from the land use category)
-    mask = ds.LU_INDEX[0].values
-    mask[mask!=_cfg.constants["lu_class"]] = 0
-    mask[mask==_cfg.constants["lu_class"]] = 1
+    mask = np.where(ds.LU_INDEX[0].values == _cfg.constants["lu_class"], 1.0, 0.0)
     dso = add_variable_along_latlon(dso, mask, 'MASK', '-', 'Glacier mask')
     
     # Derive precipitation from accumulated values
@@ -117,8 +115,8 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
     HGT.attrs['res'] = (DX,DY)
     slope = xrs.slope(HGT)
     aspect = xrs.aspect(HGT)
-    dso = add_variable_along_latlon(dso, slope, 'SLOPE', 'degrees', 'Slope')
-    dso = add_variable_along_latlon(dso, aspect, 'ASPECT', 'degrees', 'Aspect')
+    dso = add_variable_along_latlon(dso, slope.values, 'SLOPE', 'degrees', 'Slope')
+    dso = add_variable_along_latlon(dso, aspect.values, 'ASPECT', 'degrees', 'Aspect')
 
     # Write file
     dso.to_netcdf(cosipy_file)
-- 
2.43.0


From 7cefcbc455915025ff12037e1eddbff1047793ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:18 +0000
Subject: [PATCH 35/48] fix: converted WRF output had text instead of times

COSIPY cannot select its period from time stamps stored as strings, and
periods given as dates failed to select from them too.
---
 cosipy/utilities/wrf2cosipy/wrf2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
index 06f930b..9011e72 100644
--- a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
+++ b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
@@ -53,7 +53,7 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
     ds = ds.rename({'XTIME':'Time'})
     
     # Re-format timestamp (only hour and minutes, no seconds)
-    ds = ds.assign_coords(Time=pd.to_datetime(ds['Time'].values).strftime('%Y-%m-%dT%H-%M'))
+    ds = ds.assign_coords(Time=pd.to_datetime(ds['Time'].values).floor('min'))
 
     # Select the specified period
     if ((start_date!=None) & (end_date!=None)):
-- 
2.43.0


From 3ea9f4a506bdeae7e4ec0762ffc3b91bf4e4862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:18 +0000
Subject: [PATCH 36/48] fix: unit of the air temperature converted from WRF

---
 cosipy/utilities/wrf2cosipy/wrf2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
index 9011e72..f135205 100644
--- a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
+++ b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
@@ -67,7 +67,7 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
  
     # Add variables to file 
     dso = add_variable_along_latlon(dso, ds.HGT[0].values, 'HGT', 'm', 'Elevation')
-    dso = add_variable_along_timelatlon(dso, ds.T2.values, 'T2', 'm', 'Temperature at 2 m')
+    dso = add_variable_along_timelatlon(dso, ds.T2.values, 'T2', 'K', 'Temperature at 2 m')
     dso = add_variable_along_timelatlon(dso, wrf_rh(ds.T2.values, ds.Q2.values, ds.PSFC.values), 'RH2', '%', 'Relative humidity at 2 m')
     dso = add_variable_along_timelatlon(dso, ds.SWDOWN.values, 'G', 'W m^-2', 'Incoming shortwave radiation')
     dso = add_variable_along_timelatlon(dso, ds.GLW.values, 'LWin', 'W m^-2', 'Incoming longwave radiation')
-- 
2.43.0


From f0e69951dae4bc84e029ceb0d3931a16e6f1d9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:18 +0000
Subject: [PATCH 37/48] fix: configured height of the WRF wind was not used

---
 cosipy/utilities/wrf2cosipy/wrf2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
index f135205..19f39a8 100644
--- a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
+++ b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
@@ -82,7 +82,7 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
     z  = _cfg.constants["hu"]     # Height of measurement
     z0 = 0.0040 # Roughness length for momentum
     umag = np.sqrt(ds.V10.values**2+ds.U10.values**2)   # Mean wind velocity
-    U2 = umag * (np.log(2 / z0) / np.log(10 / z0))
+    U2 = umag * (np.log(2 / z0) / np.log(z / z0))
     dso = add_variable_along_timelatlon(dso, U2, 'U2', 'm s^-1', 'Wind velocity at 2 m')
 
     # Add glacier mask to file (derived from the land use category)
-- 
2.43.0


From 12e9ee5970a636d5c24559df0c1963a349375ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:18 +0000
Subject: [PATCH 38/48] fix: aspect converted from WRF was mirrored north to
 south

---
 cosipy/utilities/wrf2cosipy/wrf2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
index 19f39a8..4fbfa57 100644
--- a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
+++ b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
@@ -114,7 +114,7 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
     HGT = ds.HGT[0]
     HGT.attrs['res'] = (DX,DY)
     slope = xrs.slope(HGT)
-    aspect = xrs.aspect(HGT)
+    aspect = xrs.aspect(HGT[::-1])[::-1]  # expects the northernmost row first
     dso = add_variable_along_latlon(dso, slope.values, 'SLOPE', 'degrees', 'Slope')
     dso = add_variable_along_latlon(dso, aspect.values, 'ASPECT', 'degrees', 'Aspect')
 
-- 
2.43.0


From 7d32c238a92467df186dca00d7540c29e49894a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:53 +0000
Subject: [PATCH 39/48] fix: subsurface temperatures were interpolated outside
 the column

With a first layer thicker than the interpolation depth the neighbour index
wrapped to the lowest layer; below a short column it raised an IndexError.
---
 cosipy/modules/surfaceTemperature.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cosipy/modules/surfaceTemperature.py b/cosipy/modules/surfaceTemperature.py
index dc56e00..f3b8dec 100644
--- a/cosipy/modules/surfaceTemperature.py
+++ b/cosipy/modules/surfaceTemperature.py
@@ -194,6 +194,14 @@ def get_subsurface_temperature(GRID, cumulative_depth: np.ndarray, zlt: float):
         idx2_depth = idx1_depth + 1
 
     temperature_idx1 = GRID.get_node_temperature(idx1_depth)
+
+    # Stay inside the column: the first layer may reach below the interpolation
+    # depth, and the column may end above it
+    if idx2_depth < 0:
+        idx2_depth = 1
+    if idx2_depth >= len(cumulative_depth):
+        return temperature_idx1
+
     t_z = temperature_idx1 + (
         (temperature_idx1 - GRID.get_node_temperature(idx2_depth))
         / (cumulative_depth[idx1_depth] - cumulative_depth[idx2_depth])
-- 
2.43.0


From 81ec22ac43ebc29620605c2f5077de08a8174e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:53 +0000
Subject: [PATCH 40/48] fix: heat conduction failed for columns of one or two
 layers

---
 cosipy/modules/heatEquation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cosipy/modules/heatEquation.py b/cosipy/modules/heatEquation.py
index 34a2460..5657c87 100644
--- a/cosipy/modules/heatEquation.py
+++ b/cosipy/modules/heatEquation.py
@@ -13,6 +13,9 @@ def solveHeatEquation(GRID, dt):
 
     # Define index arrays
     nl = GRID.get_number_layers()  # number of layers
+    if nl < 3:  # surface and bottom temperature are fixed
+        return
+
     nl_1 = nl - 1
     nl_2 = nl - 2
     k = np.arange(1, nl_1)  # center points
-- 
2.43.0


From 8881c4081dc1971d0d65172f56d1846b1cfec341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:02 +0000
Subject: [PATCH 41/48] fix: remeshing failed on the last layer of a bare
 glacier

---
 cosipy/cpkernel/grid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cosipy/cpkernel/grid.py b/cosipy/cpkernel/grid.py
index def0d11..1ac4f44 100644
--- a/cosipy/cpkernel/grid.py
+++ b/cosipy/cpkernel/grid.py
@@ -394,7 +394,7 @@ class Grid:
 
             # if the last layer is smaller than the required height,
             # then merge with the previous layer
-            elif hrest < last_layer_height:
+            elif (hrest < last_layer_height) & (idx > 0):
                 self.merge_nodes(idx - 1)
 
             idx = idx + 1
@@ -447,7 +447,11 @@ class Grid:
         # remeshing layer 0 done by correct_layer above
         min_ice_idx = max(1, self.get_number_snow_layers())
         # Ensure top ice layer has first_layer_height when thin snow layers will be removed in update_grid
-        if (min_ice_idx == 1) & (self.get_node_height(0) < first_layer_height):
+        if (
+            (min_ice_idx == 1)
+            & (self.get_node_height(0) < first_layer_height)
+            & (min_ice_idx < self.get_number_layers())
+        ):
             self.correct_layer(min_ice_idx, first_layer_height)
             min_ice_idx += 1
 
-- 
2.43.0


From 20db240e63bf1cd95a79ae80e78d24f5f08cbdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:02 +0000
Subject: [PATCH 42/48] fix: snow below an ice lens was replaced with the lens
 in the snow height

---
 cosipy/cpkernel/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/grid.py b/cosipy/cpkernel/grid.py
index 1ac4f44..04863e0 100644
--- a/cosipy/cpkernel/grid.py
+++ b/cosipy/cpkernel/grid.py
@@ -793,7 +793,8 @@ class Grid:
         """Get the heights of the snow layers."""
         return [
             self.grid[idx].get_layer_height()
-            for idx in range(self.get_number_snow_layers())
+            for idx in range(self.number_nodes)
+            if (self.get_node_density(idx) < snow_ice_threshold)
         ]
 
     def get_ice_heights(self) -> list:
-- 
2.43.0


From 6f1f93577e10a5016d2ec78bcf5efab68a83b6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:01 +0000
Subject: [PATCH 43/48] fix: daily-mean plots of an afternoon timestamp showed
 the next day

---
 cosipy/postprocessing/field_plots/plot_cosipy_fields.py   | 3 ++-
 cosipy/postprocessing/vtk_plots/plot_cosipy_fields_vtk.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cosipy/postprocessing/field_plots/plot_cosipy_fields.py b/cosipy/postprocessing/field_plots/plot_cosipy_fields.py
index aadbfbe..9305648 100644
--- a/cosipy/postprocessing/field_plots/plot_cosipy_fields.py
+++ b/cosipy/postprocessing/field_plots/plot_cosipy_fields.py
@@ -9,6 +9,7 @@ import cartopy.crs as ccrs
 import matplotlib
 import matplotlib.pyplot as plt
 import numpy as np
+import pandas as pd
 import xarray as xr
 
 # matplotlib.use("TkAgg")
@@ -58,7 +59,7 @@ def get_selection(
         data = (
             array.resample(time="1D", skipna=True)
             .mean()
-            .sel(time=timestamp, method="nearest")
+            .sel(time=pd.Timestamp(timestamp).normalize(), method="nearest")
         )
 
     return data
diff --git a/cosipy/postprocessing/vtk_plots/plot_cosipy_fields_vtk.py b/cosipy/postprocessing/vtk_plots/plot_cosipy_fields_vtk.py
index a9265fb..18d2a95 100644
--- a/cosipy/postprocessing/vtk_plots/plot_cosipy_fields_vtk.py
+++ b/cosipy/postprocessing/vtk_plots/plot_cosipy_fields_vtk.py
@@ -4,6 +4,7 @@ import warnings
 from itertools import product
 
 import numpy as np
+import pandas as pd
 import vtk
 import xarray as xr
 from vtk.util import numpy_support
@@ -56,7 +57,7 @@ def get_selection(
         data = (
             array.resample(time="1D", skipna=True)
             .mean()
-            .sel(time=timestamp, method="nearest")
+            .sel(time=pd.Timestamp(timestamp).normalize(), method="nearest")
         )
 
     return data
-- 
2.43.0


From 755297829313ee600c0231a33dfafa915df4c385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:01 +0000
Subject: [PATCH 44/48] fix: field plots failed for a day with a single
 timestep

---
 cosipy/postprocessing/field_plots/plot_cosipy_fields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cosipy/postprocessing/field_plots/plot_cosipy_fields.py b/cosipy/postprocessing/field_plots/plot_cosipy_fields.py
index 9305648..e0d3da8 100644
--- a/cosipy/postprocessing/field_plots/plot_cosipy_fields.py
+++ b/cosipy/postprocessing/field_plots/plot_cosipy_fields.py
@@ -55,6 +55,8 @@ def get_selection(
                 "Use `--mean` to plot the daily mean.",
             )
             raise KeyError(" ".join(error_message))
+        if "time" in data.dims:  # the day has a single timestep
+            data = data.isel(time=0)
     else:
         data = (
             array.resample(time="1D", skipna=True)
-- 
2.43.0


From 678f7c309381329b90f2df8b98b7b038a2359bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:01 +0000
Subject: [PATCH 45/48] fix: density profile plots drew each layer one layer
 too deep

---
 cosipy/postprocessing/profile_plots/plot_profiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/postprocessing/profile_plots/plot_profiles.py b/cosipy/postprocessing/profile_plots/plot_profiles.py
index d18473f..c4fc97c 100644
--- a/cosipy/postprocessing/profile_plots/plot_profiles.py
+++ b/cosipy/postprocessing/profile_plots/plot_profiles.py
@@ -24,7 +24,7 @@ def plot_profile(filename, pdate, lat, lon):
  
     depth = np.append(0,np.cumsum(DATA.LAYER_HEIGHT.values))
     rho = np.append(DATA.LAYER_RHO[0],DATA.LAYER_RHO.values)
-    plt.step(rho,depth)
+    plt.step(rho,depth,where='post')
     ax = plt.gca()
     ax.invert_yaxis()
     plt.show()
@@ -211,7 +211,7 @@ def plot_profile_1D(filename, pdate, d=None, lat=None, lon=None):
             idx, val = find_nearest(depth,dmeas)
             print('nearest depth: %.3f \t density: %.2f \t T: %.2f' % (val,rho[idx],t[idx]))
 
-    plt.step(rho,depth)
+    plt.step(rho,depth,where='post')
     ax1 = plt.gca()
     ax1.invert_yaxis()
     ax1.set_ylabel('Depth [m]')
-- 
2.43.0


From 20b6946254b6f2436a8a61345a435fd42e4f144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:01 +0000
Subject: [PATCH 46/48] fix: profile time series failed with current libraries
 and ignored the point

---
 .../postprocessing/profile_plots/plot_profiles.py  | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/cosipy/postprocessing/profile_plots/plot_profiles.py b/cosipy/postprocessing/profile_plots/plot_profiles.py
index c4fc97c..2334a44 100644
--- a/cosipy/postprocessing/profile_plots/plot_profiles.py
+++ b/cosipy/postprocessing/profile_plots/plot_profiles.py
@@ -110,7 +110,7 @@ def plot_profile_1D_timeseries(filename, var, domainy=None, start=None, end=None
         D = ds.LAYER_HEIGHT[:,:].values.cumsum(axis=1)
    
     # Get dimensions
-    time = np.arange(ds.dims['time'])
+    time = np.arange(ds.sizes['time'])
     
     if ((lat is None) & (lon is None)):
         depth = ds.SNOWHEIGHT[:,0,0].values
@@ -118,7 +118,7 @@ def plot_profile_1D_timeseries(filename, var, domainy=None, start=None, end=None
         depth = ds.SNOWHEIGHT[:].values
     
     # Calc plotting domain height
-    Dn = (np.int(np.floor(ds.SNOWHEIGHT.max()))+1)
+    Dn = (int(np.floor(ds.SNOWHEIGHT.max()))+1)
     
     ## Create new grid
     xi = time
@@ -152,8 +152,8 @@ def plot_profile_1D_timeseries(filename, var, domainy=None, start=None, end=None
     CS = ax.pcolormesh(X,Y,data,cmap=cmap)
     #CS = ax.pcolormesh(X,Y,data, vmin=0, vmax=0.1)
     
-    N = pd.date_range(ds.time[0].values, ds.time[-1].values, freq='m')
-    M = pd.date_range(ds.time[0].values, ds.time[-1].values, freq='H')
+    N = pd.date_range(ds.time[0].values, ds.time[-1].values, freq=pd.offsets.MonthEnd())
+    M = pd.DatetimeIndex(ds.time.values)
 
     if ((stake_file!=None) & (pit_name!=None)):
         df = pd.read_csv(stake_file, sep='\t',index_col='TIMESTAMP')
@@ -167,8 +167,7 @@ def plot_profile_1D_timeseries(filename, var, domainy=None, start=None, end=None
     labIdx = []
     label = []
     for q in N:
-        o = np.where(M==q)
-        labIdx.append(o[0][0])
+        labIdx.append(M.searchsorted(q))
         label.append(q.strftime('%Y-%m-%d'))
     
     plt.xticks(labIdx, label,rotation=45,fontsize=16,weight='normal')
@@ -179,7 +178,6 @@ def plot_profile_1D_timeseries(filename, var, domainy=None, start=None, end=None
     # Make a colorbar for the ContourSet returned by the contourf call.
     cbar = plt.colorbar(CS)
     cbar.ax.set_ylabel(barLabel,fontsize=16,fontname = "Helvetica", weight='normal')
-    cbar.ax.set_yticks(barLabel,fontname = "Helvetica", weight='normal')
 
     plt.show()
 
@@ -256,6 +254,6 @@ if __name__ == "__main__":
     args = parser.parse_args()
    
     if (args.pdate is None):
-        plot_profile_1D_timeseries(args.file, args.var, args.d, args.start, args.end, stake_file=args.stake_file, pit_name=args.pit_name)
+        plot_profile_1D_timeseries(args.file, args.var, None, args.start, args.end, args.lat, args.lon, stake_file=args.stake_file, pit_name=args.pit_name)
     else:
         plot_profile_1D(args.file, args.pdate, args.d, args.lat, args.lon) 
-- 
2.43.0


From 4aa1b1e0c0eac11cd5828d3738a5e2f5e08a2bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:24 +0000
Subject: [PATCH 47/48] fix: Vionnet densification used the water content per
 layer thickness

---
 cosipy/modules/densification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/modules/densification.py b/cosipy/modules/densification.py
index d3e7407..126d95a 100644
--- a/cosipy/modules/densification.py
+++ b/cosipy/modules/densification.py
@@ -192,7 +192,7 @@ def method_Vionnet(GRID, SLOPE, dt):
         if (rho[idxNode] < snow_ice_threshold) & (height[idxNode] > minimum_snow_layer_height):
 
             # Parameter f1
-            f1 = 1 / (1+60.0*(lwc[idxNode]/height[idxNode]))
+            f1 = 1 / (1+60.0*lwc[idxNode])
           
             # Snow viscosity
             eta = f1*f2*eta0*(rho[idxNode]/c)*np.exp(a*(273.14-t[idxNode])+b*rho[idxNode])
-- 
2.43.0


From 1aa488bf0ff35df447da23e524bda51e5e4a1c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:15 +0000
Subject: [PATCH 48/48] fix: keep every dot and underscore of the output name
 when converting a configuration

---
 convert_config.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/convert_config.py b/convert_config.py
index 984e21d..526a59c 100644
--- a/convert_config.py
+++ b/convert_config.py
@@ -81,11 +81,10 @@ def get_config_params() -> dict:
 
     # Different name
     if "_" in config.output_netcdf:
-        output_split = config.output_netcdf.split("_")  # remove date
+        output_prefix = config.output_netcdf.rsplit("_", 1)[0]  # remove date
 
     else:
-        output_split = config.output_netcdf.split(".")  # remove nc
-    output_prefix = "_".join(output_split[:-1])
+        output_prefix = config.output_netcdf.rsplit(".", 1)[0]  # remove nc
     params["FILENAMES"]["output_prefix"] = output_prefix
 
     params["OUTPUT_VARIABLES"] = get_output_params()
-- 
2.43.0

