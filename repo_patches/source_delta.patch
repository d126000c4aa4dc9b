From d6daf34aa3789a9994afb0837406c772a1364683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:13 +0000
Subject: [PATCH 01/18] fix: a cloud that reaches no traps must not mark them
 as filled

---
 arcticpy/trap_managers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 295e298..85d3be9 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -556,6 +556,9 @@ class TrapManager(object):
         
         Make the new watermark then can return immediately.
         """
+        # The cloud does not reach any traps (e.g. it fits inside the notch)
+        if cloud_fractional_volume == 0:
+            return 0
 
         # Update the watermark volume, duplicated for the initial watermarks
         self.watermarks[0, 0] = cloud_fractional_volume
@@ -933,6 +936,10 @@ class TrapManagerInstantCapture(TrapManager):
         
         Make the new watermark then can return immediately.
         """
+        # The cloud does not reach any traps (e.g. it fits inside the notch)
+        if cloud_fractional_volume == 0:
+            return 0.0
+
         # Update the watermark volume, duplicated for the initial watermarks
         self.watermarks[0, 0] = cloud_fractional_volume
         watermarks_initial[0, 0] = self.watermarks[0, 0]
-- 
2.43.0


From 39d7d183274441a113ca57a42fe206e66205ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:05 +0000
Subject: [PATCH 02/18] fix: slow traps: a cloud raised above every watermark
 by released electrons needs a new top level

---
 arcticpy/trap_managers.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 85d3be9..944b934 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -650,8 +650,20 @@ class TrapManager(object):
             max_watermark_index=max_watermark_index,
         )
 
+        # The released electrons may have raised the cloud above all watermarks
+        if watermark_index_above_cloud > max_watermark_index:
+            self.watermarks[
+                watermark_index_above_cloud, 0
+            ] = cloud_fractional_volume - np.sum(self.watermarks[:, 0])
+            watermarks_initial[watermark_index_above_cloud, 0] = self.watermarks[
+                watermark_index_above_cloud, 0
+            ]
+
+            # Increment the index now that an extra watermark has been set
+            max_watermark_index += 1
+
         # Update the watermark volumes, duplicated for the initial watermarks
-        if cloud_fractional_volume > 0 and not cy_value_in_cumsum(
+        elif cloud_fractional_volume > 0 and not cy_value_in_cumsum(
             cloud_fractional_volume, self.watermarks[:, 0]
         ):
             self.watermarks = self.update_watermark_volumes_for_cloud_below_highest(
-- 
2.43.0


From 1199a924e232e3e3d385acf17160d295cb5b539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:39 +0000
Subject: [PATCH 03/18] fix: slow traps must not capture more electrons than
 the cloud holds

---
 arcticpy/trap_managers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 944b934..8b5f551 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -734,6 +734,7 @@ class TrapManager(object):
         """
         # Initial watermarks and number of electrons in traps
         # watermarks_initial = deepcopy(self.watermarks)
+        n_free_electrons_initial = n_free_electrons
         watermarks_initial = np.array(self.watermarks)
         n_trapped_electrons_initial = self.n_trapped_electrons_from_watermarks(
             watermarks=self.watermarks
@@ -836,10 +837,11 @@ class TrapManager(object):
             return 0
 
         # Not enough available electrons to capture
-        enough = n_free_electrons / (
-            n_trapped_electrons_final - n_trapped_electrons_initial
-        )
-        if 0 < enough < 1:
+        # (those released meanwhile are already included in the net capture)
+        n_captured = n_trapped_electrons_final - n_trapped_electrons_initial
+        if n_captured > n_free_electrons_initial:
+            enough = n_free_electrons_initial / n_captured
+
             # For watermark fill fractions that increased, tweak them such that
             # the resulting increase instead matches the available electrons
             self.watermarks = self.updated_watermarks_from_capture_not_enough(
-- 
2.43.0


From 80831cf05c814bd914938f739c61c259b1fc83e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:44 +0000
Subject: [PATCH 04/18] fix: elapsed-time traps with too few electrons to fill
 them must capture the electrons there are

---
 arcticpy/trap_managers.py | 61 ++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 8b5f551..cb23958 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -264,6 +264,11 @@ class TrapManager(object):
         """
         return 1
 
+    @property
+    def empty_watermark_value(self):
+        """ The value for an empty watermark level, here a 0 fill fraction. """
+        return 0
+
     @property
     def n_watermarks_per_transfer(self):
         """ Each transfer can create up to 2 new watermark levels (at the other 
@@ -957,6 +962,7 @@ class TrapManagerInstantCapture(TrapManager):
         # Update the watermark volume, duplicated for the initial watermarks
         self.watermarks[0, 0] = cloud_fractional_volume
         watermarks_initial[0, 0] = self.watermarks[0, 0]
+        watermarks_initial[0, 1:] = self.empty_watermark_value
 
         # Update the fill fractions
         self.watermarks[0, 1:] = self.filled_watermark_value
@@ -1124,6 +1130,9 @@ class TrapManagerInstantCapture(TrapManager):
             watermarks_initial[watermark_index_above_cloud, 0] = self.watermarks[
                 watermark_index_above_cloud, 0
             ]
+            watermarks_initial[
+                watermark_index_above_cloud, 1:
+            ] = self.empty_watermark_value
 
         # Continue with capture having prepared the new watermark at the cloud
         # and released from any watermarks above the cloud
@@ -1133,11 +1142,6 @@ class TrapManagerInstantCapture(TrapManager):
             : watermark_index_above_cloud + 1, 1:
         ] = self.filled_watermark_value
 
-        # Collapse any redundant watermarks that are completely full
-        self.watermarks, watermarks_initial = self.collapse_redundant_watermarks(
-            watermarks=self.watermarks, watermarks_copy=watermarks_initial
-        )
-
         # Final number of electrons in traps
         n_trapped_electrons_final = self.n_trapped_electrons_from_watermarks(
             watermarks=self.watermarks
@@ -1145,6 +1149,9 @@ class TrapManagerInstantCapture(TrapManager):
 
         # Prevent division by zero errors
         if n_trapped_electrons_final == n_trapped_electrons_initial:
+            self.watermarks = self.collapse_redundant_watermarks(
+                watermarks=self.watermarks
+            )
             return 0.0
 
         # Not enough available electrons to capture
@@ -1249,6 +1256,11 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
         """ The value for a filled watermark level, here 0 is an elapsed time """
         return 0
 
+    @property
+    def empty_watermark_value(self):
+        """ The value for an empty watermark level, an infinite elapsed time """
+        return np.inf
+
     def watermarks_converted_to_fill_fractions_from_elapsed_times(self, watermarks):
         """ Convert the watermark values to fill fractions.
 
@@ -1333,34 +1345,31 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
-        # Convert to fill fractions
-        for level in range(np.argmax(watermarks[:, 0] == 0)):
-            for i_trap, trap in enumerate(self.traps):
-                watermarks[level, i_trap] = trap.fill_fraction_from_time_elapsed(
-                    time_elapsed=watermarks[level, i_trap]
-                )
-                watermarks_initial[
-                    level, i_trap
-                ] = trap.fill_fraction_from_time_elapsed(
-                    time_elapsed=watermarks_initial[level, i_trap]
-                )
-
-        # Update the fill fractions in the standard way
-        watermarks = super(
+        # Update the equivalent fill fractions in the standard way
+        fill_fractions = super(
             TrapManagerTrackTime, self
         ).updated_watermarks_from_capture_not_enough(
-            self,
-            watermarks=watermarks,
-            watermarks_initial=watermarks_initial,
+            watermarks=self.watermarks_converted_to_fill_fractions_from_elapsed_times(
+                watermarks
+            ),
+            watermarks_initial=self.watermarks_converted_to_fill_fractions_from_elapsed_times(
+                watermarks_initial
+            ),
             enough=enough,
         )
 
-        # Convert back to elapsed times
+        # Convert back to elapsed times, for the levels that captured electrons
         for level in range(np.argmax(watermarks[:, 0] == 0)):
             for i_trap, trap in enumerate(self.traps):
-                watermarks[level, i_trap] = trap.time_elapsed_from_fill_fraction(
-                    fill_fraction=watermarks[level, i_trap]
-                )
+                if (
+                    watermarks[level, 1 + i_trap]
+                    != watermarks_initial[level, 1 + i_trap]
+                ):
+                    watermarks[
+                        level, 1 + i_trap
+                    ] = trap.time_elapsed_from_fill_fraction(
+                        fill_fraction=fill_fractions[level, 1 + i_trap]
+                    )
 
         return watermarks
 
-- 
2.43.0


From eee2655154129bce999d29665cbce39f2c01e1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:45 +0000
Subject: [PATCH 05/18] fix: extend the watermark storage when transfers
 continue past the number planned for

---
 arcticpy/trap_managers.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index cb23958..d72dfcb 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -370,6 +370,19 @@ class TrapManager(object):
         """ Reset the trap watermarks for the next run of release and capture. """
         self.watermarks.fill(0)
 
+    def _extend_watermarks_for_next_transfer(self):
+        """ Add inactive watermarks if the next transfer might need more than are 
+            left, e.g. if the traps are not emptied between columns. 
+        """
+        n_watermarks_needed = (
+            np.count_nonzero(self.watermarks[:, 0]) + self.n_watermarks_per_transfer + 1
+        )
+        n_extra = n_watermarks_needed - self.watermarks.shape[0]
+        if n_extra > 0:
+            self.watermarks = np.concatenate(
+                (self.watermarks, np.zeros((n_extra, self.watermarks.shape[1]))), axis=0
+            )
+
     def watermark_index_above_cloud_from_cloud_fractional_volume(
         self, cloud_fractional_volume, watermarks, max_watermark_index
     ):
@@ -737,6 +750,9 @@ class TrapManager(object):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
+        # Make sure there is space for the new watermarks
+        self._extend_watermarks_for_next_transfer()
+
         # Initial watermarks and number of electrons in traps
         # watermarks_initial = deepcopy(self.watermarks)
         n_free_electrons_initial = n_free_electrons
@@ -1068,6 +1084,9 @@ class TrapManagerInstantCapture(TrapManager):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
+        # Make sure there is space for the new watermarks
+        self._extend_watermarks_for_next_transfer()
+
         # Save the initial watermarks and number of electrons in traps, in case
         # there aren't enough free electrons to fill all the identified traps
         watermarks_initial = deepcopy(self.watermarks)
-- 
2.43.0


From e6a024458cbd85b3809d83fa141d02082bfac325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:44 +0000
Subject: [PATCH 06/18] fix: charge released above the first row must not be
 written outside the image

---
 arcticpy/main_utils.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index 7914981..939d560 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -10,7 +10,7 @@ from arcticpy.trap_managers import AllTrapManager
 
 @cython.boundscheck(False)
 @cython.nonecheck(False)
-@cython.wraparound(False)
+@cython.wraparound(True)  # Row -1, above the readout, is in the zero padding
 def cy_clock_charge_in_one_direction(
     image_in,
     ccd,
-- 
2.43.0


From 1d90b4e9dc3f64563dc2e87b0715ed86b00628b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:30 +0000
Subject: [PATCH 07/18] fix: refuse a CCD with traps in phases that the ROE
 does not clock

---
 arcticpy/main_utils.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index 939d560..a7abdd6 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -134,6 +134,10 @@ def cy_clock_charge_in_one_direction(
     cdef np.int64_t[::1] phases_with_traps = np.array([
         i for i, frac in enumerate(ccd.fraction_of_traps_per_phase) if frac > 0
     ], dtype=np.int64)
+    if phases_with_traps.shape[0] > 0 and max(phases_with_traps) >= roe.n_phases:
+        raise ValueError(
+            f"The CCD has traps in phases that are not clocked by the {roe.n_phases}-phase ROE"
+        )
     cdef np.int64_t[::1] steps_with_nonzero_dwell_time = np.array([
         i for i, time in enumerate(roe.dwell_times) if time > 0
     ], dtype=np.int64)
-- 
2.43.0


From 99dd4dcf419201ef610995472ad60331168c59b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:06 +0000
Subject: [PATCH 08/18] fix: charge injection with whole-number express
 multipliers raised a NameError

---
 arcticpy/roe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index f73794a..68970c4 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -51,6 +51,8 @@ phase 2 is closer than phase 1:
 import numpy as np
 from copy import deepcopy
 
+from arcticpy import util
+
 
 class ROEPhase(object):
     def __init__(
@@ -701,7 +703,7 @@ class ROEChargeInjection(ROE):
         express_matrix = np.zeros((express, n_pixels), dtype=self.express_matrix_dtype)
         max_multiplier = self.n_pixel_transfers / express
         if self.express_matrix_dtype == int:
-            max_multiplier = math.ceil(max_multiplier)
+            max_multiplier = int(np.ceil(max_multiplier))
             for i in reversed(range(express)):
                 express_matrix[i, :] = util.set_min_max(
                     max_multiplier,
-- 
2.43.0


From 5b71ee77f25c6384b7166d821039614f3a7467fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:24 +0000
Subject: [PATCH 09/18] fix: a charge injection ROE must not remember the size
 of the first image it clocked

---
 arcticpy/roe.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 68970c4..85db037 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -690,25 +690,26 @@ class ROEChargeInjection(ROE):
 
         window_range = range(pixels) if isinstance(pixels, int) else pixels
         n_pixels = max(window_range) + 1
-        if self.n_pixel_transfers is None:
-            self.n_pixel_transfers = n_pixels + offset
+        n_pixel_transfers = self.n_pixel_transfers
+        if n_pixel_transfers is None:
+            n_pixel_transfers = n_pixels + offset
 
         # Set default express to all transfers and check no larger
         if express == 0:
-            express = self.n_pixel_transfers
+            express = n_pixel_transfers
         else:
-            express = min(express, self.n_pixel_transfers)
+            express = min(express, n_pixel_transfers)
 
         # Compute the multiplier factors
         express_matrix = np.zeros((express, n_pixels), dtype=self.express_matrix_dtype)
-        max_multiplier = self.n_pixel_transfers / express
+        max_multiplier = n_pixel_transfers / express
         if self.express_matrix_dtype == int:
             max_multiplier = int(np.ceil(max_multiplier))
             for i in reversed(range(express)):
                 express_matrix[i, :] = util.set_min_max(
                     max_multiplier,
                     0,
-                    self.n_pixel_transfers - sum(express_matrix[:, 0]),
+                    n_pixel_transfers - sum(express_matrix[:, 0]),
                 )
         else:
             express_matrix[:] = max_multiplier
-- 
2.43.0


From f0f6a60aa2743004014fece6d0c9f68bfed0f6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:42 +0000
Subject: [PATCH 10/18] fix: charge injection with a row window must return
 matrices for the windowed rows

---
 arcticpy/roe.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 85db037..0859dd6 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -722,7 +722,14 @@ class ROEChargeInjection(ROE):
             express_matrix, time_window_range
         )
 
-        return express_matrix.astype(float), monitor_traps_matrix
+        # Keep only the spatial region of interest
+        express_matrix = express_matrix[:, window_range]
+        monitor_traps_matrix = monitor_traps_matrix[:, window_range]
+
+        return (
+            np.ascontiguousarray(express_matrix.astype(float)),
+            np.ascontiguousarray(monitor_traps_matrix),
+        )
 
     def save_trap_states_matrix_from_express_matrix(self, express_matrix):
         """
-- 
2.43.0


From effb092d03330af4cab8ffec89f1c6351bed7fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:30 +0000
Subject: [PATCH 11/18] fix: express one less than the number of rows raised an
 IndexError when first transfers are separate

---
 arcticpy/roe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 0859dd6..69bacb9 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -524,7 +524,10 @@ class ROE(ROEAbstract):
 
         # Temporarily ignore the first pixel-to-pixel transfer, if it is to be
         # handled differently than the rest
-        if self.empty_traps_for_first_transfers and express < n_pixels:
+        separate_first_transfers = (
+            self.empty_traps_for_first_transfers and express < n_pixels
+        )
+        if separate_first_transfers:
             n_pixels -= 1
 
         # Initialise an array with enough pixels to contain the supposed image,
@@ -550,7 +553,7 @@ class ROE(ROEAbstract):
         # Add an extra (first) transfer for every pixel, the effect of which
         # will only ever be counted once, because it is physically different
         # from the other transfers (it sees only empty traps)
-        if self.empty_traps_for_first_transfers and express < n_pixels:
+        if separate_first_transfers:
             # Store current matrix, which is correct for one-too-few pixel-to-pixel transfers
             express_matrix_small = express_matrix
             # Create a new matrix for the full number of transfers
-- 
2.43.0


From 75ce76f2268989c360894a71c20cd08612b68656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:01 +0000
Subject: [PATCH 12/18] fix: trap states saved between express passes must be
 those just before the next pass begins, also in windows

---
 arcticpy/main_utils.pyx | 5 +++--
 arcticpy/roe.py         | 9 ++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index a7abdd6..eee8dcb 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -124,9 +124,10 @@ def cy_clock_charge_in_one_direction(
     )
 
     # ; and whether the trap occupancy states must be saved for the next express
-    # pass rather than being reset (usually at the end of each express pass)
+    # pass rather than being reset (usually at the end of each express pass).
+    # A time window does not change which pixels each pass monitors
     save_trap_states_matrix = roe.save_trap_states_matrix_from_express_matrix(
-        express_matrix=express_matrix
+        express_matrix=np.asarray(monitor_traps_matrix)
     )
 
     # Decide in advance which steps need to be evaluated and which can be skipped
diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 69bacb9..712363c 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -620,11 +620,10 @@ class ROE(ROEAbstract):
 
         if not self.empty_traps_for_first_transfers:
             for express_index in range(n_express - 1):
-                for row_index in range(n_pixels - 1):
-                    if express_matrix[express_index + 1, row_index + 1] > 0:
-                        break
-
-                save_trap_states_matrix[express_index, row_index] = True
+                # Save on the pixel before the one where the next pass begins, if any
+                next_rows = np.nonzero(express_matrix[express_index + 1] > 0)[0]
+                if len(next_rows) > 0 and next_rows[0] > 0:
+                    save_trap_states_matrix[express_index, next_rows[0] - 1] = True
 
         return save_trap_states_matrix
 
-- 
2.43.0


From d656abc996263eeec693677db9822cad29976c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:28 +0000
Subject: [PATCH 13/18] fix: whole-number trap pumping multipliers must not
 become negative

---
 arcticpy/roe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 712363c..91ba4e6 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -867,8 +867,9 @@ class ROETrapPumping(ROEAbstract):
         # Make sure all values are integers, but still add up to the desired
         # number of pumps
         if self.express_matrix_dtype == int:
-            express_multipliers = list(map(int, np.round(express_multipliers)))
-            express_multipliers[-1] += self.n_pumps - sum(express_multipliers)
+            # Round the running total, to keep the correct number of pumps
+            n_pumps_done = np.round(np.cumsum([0] + express_multipliers)).astype(int)
+            express_multipliers = list(np.diff(n_pumps_done))
 
         # Initialise an array
         express_matrix = np.zeros(
-- 
2.43.0


From 339d35217a8b2e289ba6cb1e55db709b17fa8cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 14/18] fix: trap pumping several pixels raised an IndexError
 and carried trap states between pixels

---
 arcticpy/main_utils.pyx | 7 +++++++
 arcticpy/roe.py         | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index eee8dcb..c19aa99 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -255,6 +255,13 @@ def cy_clock_charge_in_one_direction(
                 if save_trap_states_matrix[express_index, row_index]:
                     trap_managers.save()
 
+            # The traps in the next pixel to be pumped are different and still empty
+            if isinstance(roe, ROETrapPumping) and not np.any(
+                save_trap_states_matrix[express_index]
+            ):
+                trap_managers.empty_all_traps()
+                trap_managers.save()
+
         # Reset the watermarks for the next column, effectively setting the trap
         # occupancies to zero
         if roe.empty_traps_between_columns:
diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 91ba4e6..c27898e 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -897,6 +897,9 @@ class ROETrapPumping(ROEAbstract):
         (n_express, n_pixels) = express_matrix.shape
         save_trap_states_matrix = np.zeros((n_express, n_pixels), dtype=bool)
 
+        # Each pixel has its own set of express passes
+        n_express //= n_pixels
+
         for j in range(n_pixels):
             for i in range(n_express):
                 # Save trap occupancy between pumps of same trap
-- 
2.43.0


From 5ba92ca1004e0b12d53e8fc3d4933ae81ddfa124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:26 +0000
Subject: [PATCH 15/18] fix: keep capture timescale and kind of trap in
 Trap.poisson_trap

---
 arcticpy/traps.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index 582a1ec..2f704be 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -189,11 +189,10 @@ class Trap(object):
         poisson_trap = []
         for densities in poisson_densities:
             for i, trap_i in enumerate(trap):
-                poisson_trap.append(
-                    Trap(
-                        density=densities[i], release_timescale=trap_i.release_timescale
-                    )
-                )
+                # Only the density changes, not the type or timescales of the trap
+                trap_column = deepcopy(trap_i)
+                trap_column.density = float(densities[i])
+                poisson_trap.append(trap_column)
 
         return poisson_trap
 
-- 
2.43.0


From 158998957c5f48a5b7efeb2534c31f5ecfecd857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 16/18] fix: name the given densities in TrapManager's refusal
 of the wrong number of them

---
 arcticpy/trap_managers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index d72dfcb..0f3db1a 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -295,7 +295,7 @@ class TrapManager(object):
     def n_traps_per_pixel(self, values):
         if len(values) != len(self.traps):
             raise ValueError(
-                f"{len(value)} trap densities supplied, for {len(self.traps)} species of traps"
+                f"{len(values)} trap densities supplied, for {len(self.traps)} species of traps"
             )
         for i, value in enumerate(values):
             self.traps[i].density = float(value)
-- 
2.43.0


From 58b3470ddd4702a2c0a5f641a00882314224fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:32 +0000
Subject: [PATCH 17/18] fix: let remove_cti take images of integers, as add_cti
 does

---
 arcticpy/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arcticpy/main.py b/arcticpy/main.py
index bfd1388..85980d3 100644
--- a/arcticpy/main.py
+++ b/arcticpy/main.py
@@ -296,7 +296,7 @@ def remove_cti(
         )
 
         # Improved estimate of image with CTI trails removed
-        image_remove_cti += image - image_add_cti
+        image_remove_cti = image_remove_cti + (image - image_add_cti)
 
     # TODO : Implement as decorator
 
-- 
2.43.0


From 338ff130dae8c97bb514be1141c9b13cf88e26ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:55 +0000
Subject: [PATCH 18/18] fix: keep the step of the row window in serial clocking
 with a time window

---
 arcticpy/main.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/arcticpy/main.py b/arcticpy/main.py
index 85980d3..8cbc2d1 100644
--- a/arcticpy/main.py
+++ b/arcticpy/main.py
@@ -168,11 +168,11 @@ def add_cti(
         serial_window_column_range = parallel_window_range
     else:
         # Intersection of spatial and time windows for serial clocking
-        serial_window_column_range = range(
-            int(max(parallel_window_range[0], time_window_range[0] - parallel_offset)),
-            int(min(parallel_window_range[-1], time_window_range[-1] - parallel_offset))
-            + 1,
-        )
+        serial_window_column_range = [
+            row
+            for row in parallel_window_range
+            if time_window_range[0] <= row + parallel_offset <= time_window_range[-1]
+        ]
 
     # Default ROE: simple, single-phase clocking in imaging mode
     if parallel_roe is None:
-- 
2.43.0

