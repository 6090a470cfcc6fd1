From d93d933318e3277005d410ab490f7795996ce16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:58 +0000
Subject: [PATCH 01/66] fix: polarization translation functions return their
 own list, not the cached one

---
 src/pyuvdata/utils/pol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/utils/pol.py b/src/pyuvdata/utils/pol.py
index 3c01de1..fcb0c6a 100644
--- a/src/pyuvdata/utils/pol.py
+++ b/src/pyuvdata/utils/pol.py
@@ -130,12 +130,14 @@ def np_cache(function):
     @wraps(function)
     def wrapper(pol, x_orientation=None):
         try:
-            return function(pol, x_orientation=x_orientation)
+            result = function(pol, x_orientation=x_orientation)
         except TypeError:
             if isinstance(pol, Iterable):
                 # Assume the reason that we got a type error is that pol was an array.
                 pol = tuple(pol)
-            return function(pol, x_orientation=x_orientation)
+            result = function(pol, x_orientation=x_orientation)
+        # return a copy of lists so that callers cannot modify the cached value
+        return list(result) if isinstance(result, list) else result
 
     # copy lru_cache attributes over too
     wrapper.cache_info = function.cache_info
-- 
2.43.0


From 3823c96048dc3629b3cff1e3b089c21c8671c19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:53 +0000
Subject: [PATCH 02/66] fix: select with keep_all_metadata=False also prunes
 eq_coeffs along the antenna axis

---
 src/pyuvdata/uvdata/uvdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index e577c8a..1457e66 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7126,6 +7126,9 @@ class UVData(UVBase):
             elif key == "Nants_telescope":
                 # Count the number of unique ants after ant-based selection
                 self.telescope.Nants = len(ind_arr)
+                if self.eq_coeffs is not None:
+                    # the only parameter on this object with a telescope antenna axis
+                    self.eq_coeffs = self.eq_coeffs.take(ind_arr, axis=0)
 
         # Update the history string
         self.history += history_update_string
-- 
2.43.0


From 57f2fb8785503e588a78ff6977247e0a80c96f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:21 +0000
Subject: [PATCH 03/66] fix: freq_chans given as a tuple or scalar selects
 those channels (UVData, UVFlag, UVBeam)

---
 src/pyuvdata/uvbeam/uvbeam.py | 2 +-
 src/pyuvdata/uvdata/uvdata.py | 4 ++--
 src/pyuvdata/uvflag/uvflag.py | 6 ++----
 3 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 1e48a49..36991c2 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -3054,7 +3054,7 @@ class UVBeam(UVBase):
                 ]
 
         if freq_chans is not None:
-            freq_chans = utils.tools._get_iterable(freq_chans)
+            freq_chans = list(utils.tools._get_iterable(freq_chans))
             if frequencies is None:
                 frequencies = beam_object.freq_array[freq_chans]
             else:
diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 1457e66..fa8db52 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6878,11 +6878,11 @@ class UVData(UVBase):
             if np.array(freq_chans).ndim > 1:
                 freq_chans = np.array(freq_chans).flatten()
             if frequencies is None:
-                frequencies = self.freq_array[freq_chans]
+                frequencies = self.freq_array[list(freq_chans)]
             else:
                 frequencies = utils.tools._get_iterable(frequencies)
                 frequencies = np.sort(
-                    list(set(frequencies) | set(self.freq_array[freq_chans]))
+                    list(set(frequencies) | set(self.freq_array[list(freq_chans)]))
                 )
 
         if frequencies is not None:
diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index a111c23..cb5faa7 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -2673,14 +2673,12 @@ class UVFlag(UVBase):
             if np.array(freq_chans).ndim > 1:
                 freq_chans = np.array(freq_chans).flatten()
             if frequencies is None:
-                frequencies = np.squeeze(self.freq_array)[freq_chans]
+                frequencies = self.freq_array[list(freq_chans)]
 
             else:
                 frequencies = utils.tools._get_iterable(frequencies)
                 frequencies = np.sort(
-                    list(
-                        set(frequencies) | set(np.squeeze(self.freq_array)[freq_chans])
-                    )
+                    list(set(frequencies) | set(self.freq_array[list(freq_chans)]))
                 )
 
         if frequencies is not None:
-- 
2.43.0


From 5d886778e20b264fa4cb99350e715da01be9058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:05 +0000
Subject: [PATCH 04/66] fix: parse_ants recognises feed names when
 x_orientation is set

---
 src/pyuvdata/utils/bls.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/bls.py b/src/pyuvdata/utils/bls.py
index 444482f..6040486 100644
--- a/src/pyuvdata/utils/bls.py
+++ b/src/pyuvdata/utils/bls.py
@@ -194,7 +194,11 @@ def parse_ants(uv, ant_str, *, print_toggle=False, x_orientation=None):
     polarizations = []
     ants_data = uv.get_ants()
     ant_pairs_data = uv.get_antpairs()
-    pols_data = uv.get_pols()
+    # ant_str uses the x/y feed names, so compare to the data in that convention
+    pols_data = [
+        polnum2str(polstr2num(pol, x_orientation=uv.telescope.x_orientation))
+        for pol in uv.get_pols()
+    ]
     warned_ants = []
     warned_pols = []
 
-- 
2.43.0


From b0393a768a1f26db3086a1e38ebec19983ac2773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:05 +0000
Subject: [PATCH 05/66] fix: an ant_str that excludes every antenna pair
 matches nothing, not everything

---
 src/pyuvdata/utils/bls.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/bls.py b/src/pyuvdata/utils/bls.py
index 6040486..485fdac 100644
--- a/src/pyuvdata/utils/bls.py
+++ b/src/pyuvdata/utils/bls.py
@@ -201,6 +201,7 @@ def parse_ants(uv, ant_str, *, print_toggle=False, x_orientation=None):
     ]
     warned_ants = []
     warned_pols = []
+    pairs_removed = False
 
     if ant_str.startswith("-"):
         ant_str = "all," + ant_str
@@ -335,6 +336,7 @@ def parse_ants(uv, ant_str, *, print_toggle=False, x_orientation=None):
                                 if pol.lower() in pols_data:
                                     if uv.Npols == 1 and [pol.lower()] == pols_data:
                                         ant_pairs_nums.remove(ant_tuple)
+                                        pairs_removed = True
                                     if (
                                         polstr2num(pol, x_orientation=x_orientation)
                                         in polarizations
@@ -348,11 +350,13 @@ def parse_ants(uv, ant_str, *, print_toggle=False, x_orientation=None):
                                     warned_pols.append(pol)
                         elif ant_tuple in ant_pairs_nums:
                             ant_pairs_nums.remove(ant_tuple)
+                            pairs_removed = True
 
     if ant_str.upper() == "ALL":
         ant_pairs_nums = None
     elif len(ant_pairs_nums) == 0:
-        if not ant_str.upper() in ["AUTO", "CROSS"]:
+        # if every pair was excluded, nothing matches (rather than everything)
+        if not (ant_str.upper() in ["AUTO", "CROSS"] or pairs_removed):
             ant_pairs_nums = None
 
     if len(polarizations) == 0:
-- 
2.43.0


From e0479aefa5491b6774c302f98361eaa48d34ac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:12 +0000
Subject: [PATCH 06/66] fix: selecting one channel in each of several spectral
 windows does not error

---
 src/pyuvdata/uvcal/uvcal.py   | 5 ++++-
 src/pyuvdata/uvdata/uvdata.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 18cec26..1537e43 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -4172,7 +4172,10 @@ class UVCal(UVBase):
                     freq_ind_separation = freq_ind_separation[
                         np.diff(self.flex_spw_id_array[freq_inds]) == 0
                     ]
-                if not utils.tools._test_array_constant(freq_ind_separation):
+                if freq_ind_separation.size == 0:
+                    # all the selected frequencies are in different spectral windows
+                    pass
+                elif not utils.tools._test_array_constant(freq_ind_separation):
                     warnings.warn(
                         "Selected frequencies are not evenly spaced. This "
                         "will make it impossible to write this data out to "
diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index fa8db52..159db21 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6910,7 +6910,10 @@ class UVData(UVBase):
                 freq_ind_separation = freq_ind_separation[
                     np.diff(self.flex_spw_id_array[freq_inds]) == 0
                 ]
-                if not utils.tools._test_array_constant(freq_ind_separation):
+                if freq_ind_separation.size == 0:
+                    # all the selected frequencies are in different spectral windows
+                    pass
+                elif not utils.tools._test_array_constant(freq_ind_separation):
                     warnings.warn(
                         "Selected frequencies are not evenly spaced. This "
                         "will make it impossible to write this data out to "
-- 
2.43.0


From 7c4698599c71917bae5e65488093db5e2e35342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:10 +0000
Subject: [PATCH 07/66] fix: represent only ascending index lists as slices in
 slicify and _convert_to_slices

Descending or repeated indices were turned into slices that select other
elements (e.g. [1, 0] became an empty slice).
---
 src/pyuvdata/utils/tools.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/pyuvdata/utils/tools.py b/src/pyuvdata/utils/tools.py
index b45b67d..b932e38 100644
--- a/src/pyuvdata/utils/tools.py
+++ b/src/pyuvdata/utils/tools.py
@@ -110,15 +110,15 @@ def _convert_to_slices(
     # assert indices is longer than 2, or return trivial solutions
     if len(eval_ind) == 0:
         return [slice(0, 0, 0)], False
-    if len(eval_ind) <= 2:
-        return [
-            slice(eval_ind[0], eval_ind[-1] + 1, max(eval_ind[-1] - eval_ind[0], 1))
-        ], True
+    if len(eval_ind) == 1:
+        return [slice(eval_ind[0], eval_ind[0] + 1, 1)], True
+    if len(eval_ind) == 2 and eval_ind[1] > eval_ind[0]:
+        return [slice(eval_ind[0], eval_ind[1] + 1, eval_ind[1] - eval_ind[0])], True
 
     # Catch the simplest case of "give me a single slice or exit"
     if (max_nslice == 1) and return_index_on_fail:
         step = eval_ind[1] - eval_ind[0]
-        if all(np.diff(eval_ind) == step):
+        if step > 0 and all(np.diff(eval_ind) == step):
             return [slice(eval_ind[0], eval_ind[-1] + 1, step)], True
         return [indices], False
 
@@ -134,6 +134,11 @@ def _convert_to_slices(
             if start is None:
                 start = ind
                 continue
+            # Only ascending indices can be combined into a slice
+            if ind <= start:
+                slices.append(slice(start, start + 1, 1))
+                start = ind
+                continue
             last_step = ind - start
             last_ind = ind
             continue
@@ -174,8 +179,11 @@ def slicify(ind: slice | None | IterableType[int]) -> slice | None | IterableTyp
     if len(ind) == 0:
         return None
 
-    if len(set(np.ediff1d(ind))) <= 1:
-        return slice(ind[0], ind[-1] + 1, ind[1] - ind[0] if len(ind) > 1 else 1)
+    if len(ind) == 1:
+        return slice(ind[0], ind[0] + 1, 1)
+    # only ascending, regularly spaced indices can be expressed as a slice this way
+    if ind[1] > ind[0] and len(set(np.ediff1d(ind))) == 1:
+        return slice(ind[0], ind[-1] + 1, ind[1] - ind[0])
     else:
         # can't slicify
         return ind
-- 
2.43.0


From fa2a54b42b168c5dbcbb2e961dcb1616fb1f3b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:33 +0000
Subject: [PATCH 08/66] fix: conjugate_bls moves flags and nsamples of
 cross-pols along with the data

---
 src/pyuvdata/uvdata/uvdata.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 159db21..c233d12 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3685,10 +3685,18 @@ class UVData(UVBase):
 
             if not self.metadata_only:
                 orig_data_array = copy.copy(self.data_array)
+                orig_flag_array = copy.copy(self.flag_array)
+                orig_nsample_array = copy.copy(self.nsample_array)
                 for pol_ind in np.arange(self.Npols):
                     self.data_array[index_array, :, new_pol_inds[pol_ind]] = np.conj(
                         orig_data_array[index_array, :, pol_ind]
                     )
+                    self.flag_array[index_array, :, new_pol_inds[pol_ind]] = (
+                        orig_flag_array[index_array, :, pol_ind]
+                    )
+                    self.nsample_array[index_array, :, new_pol_inds[pol_ind]] = (
+                        orig_nsample_array[index_array, :, pol_ind]
+                    )
 
             ant_1_vals = self.ant_1_array[index_array]
             ant_2_vals = self.ant_2_array[index_array]
-- 
2.43.0


From 82b94c19118b7b9d0954b6c0e43a1f8df1e4fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:50 +0000
Subject: [PATCH 09/66] fix: conjugate_bls updates blt_order and rectangularity

---
 src/pyuvdata/uvdata/uvdata.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index c233d12..00a4759 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3708,6 +3708,13 @@ class UVData(UVBase):
             self.Nbls = np.unique(self.baseline_array).size
             self._clear_antpair2ind_cache(self)
 
+            # relabelling baselines can break any ordering that uses antenna or
+            # baseline numbers and can change whether the blts are rectangular.
+            if self.blt_order is not None and tuple(self.blt_order) != ("time",):
+                self.blt_order = None
+            if self.blts_are_rectangular is not None:
+                self.set_rectangularity(force=True)
+
     def reorder_pols(
         self,
         order="AIPS",
-- 
2.43.0


From a3d747880adf468659a08e92c9d2236d33670c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:22 +0000
Subject: [PATCH 10/66] fix: determine_blt_order and determine_rectangularity
 on irregular layouts

Sorted but irregular blts no longer trip an assertion, and a blt_order is no
longer taken as proof that the blts are rectangular (blts can be repeated).
---
 src/pyuvdata/utils/bltaxis.py | 41 ++++-------------------------------
 1 file changed, 4 insertions(+), 37 deletions(-)

diff --git a/src/pyuvdata/utils/bltaxis.py b/src/pyuvdata/utils/bltaxis.py
index e67c28f..9421a80 100644
--- a/src/pyuvdata/utils/bltaxis.py
+++ b/src/pyuvdata/utils/bltaxis.py
@@ -94,35 +94,6 @@ def determine_blt_order(
         ):
             break
 
-    if Nbls > 1 and Ntimes > 1:
-        assert not (
-            (time_bl and bl_time)
-            or (time_a and a_time)
-            or (time_b and b_time)
-            or (time_order and a_order)
-            or (time_order and b_order)
-            or (a_order and b_order)
-            or (time_order and bl_order)
-        ), (
-            "Something went wrong when trying to determine the order of the blts axis. "
-            "Please raise an issue on github, as this is not meant to happen."
-            "None of the following should ever be True: \n"
-            f"\ttime_bl and bl_time: {time_bl and bl_time}\n"
-            f"\ttime_a and a_time: {time_a and a_time}\n"
-            f"\ttime_b and b_time: {time_b and b_time}\n"
-            f"\ttime_order and a_order: {time_order and a_order}\n"
-            f"\ttime_order and b_order: {time_order and b_order}\n"
-            f"\ta_order and b_order: {a_order and b_order}\n"
-            f"\ttime_order and bl_order: {time_order and bl_order}\n\n"
-            "Please include the following information in your issue:\n"
-            f"Nbls: {Nbls}\n"
-            f"Ntimes: {Ntimes}\n"
-            f"TIMES: {times}\n"
-            f"ANT1: {ant1}\n"
-            f"ANT2: {ant2}\n"
-            f"BASELINES: {bls}\n"
-        )
-
     if time_bl:
         return ("time", "baseline")
     if bl_time:
@@ -168,8 +139,8 @@ def determine_rectangularity(
     ntimes : int
         Number of times.
     blt_order : str or tuple of str, optional
-        If known, pass the blt_order, which can short-circuit the determination
-        of rectangularity.
+        If known, pass the blt_order, which restricts the determination of
+        rectangularity to the matching axis order.
 
     Returns
     -------
@@ -199,15 +170,11 @@ def determine_rectangularity(
         return True, True
     elif ntimes == 1:
         return True, False
-    elif blt_order == ("baseline", "time"):
-        return True, True
-    elif blt_order == ("time", "baseline"):
-        return True, False
 
     # That's all the easiest checks.
-    if time_array[1] == time_array[0]:
+    if blt_order == ("time", "baseline") or time_array[1] == time_array[0]:
         time_first = False
-    if baseline_array[1] == baseline_array[0]:
+    if blt_order == ("baseline", "time") or baseline_array[1] == baseline_array[0]:
         bl_first = False
     if not time_first and not bl_first:
         return False, False
-- 
2.43.0


From 8076ff944965133cb7ec28ec57a77ed74bb3191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:53 +0000
Subject: [PATCH 11/66] fix: keyed access when a polarization exists for only
 one stored orientation

---
 src/pyuvdata/uvdata/uvdata.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 00a4759..f67c078 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -2829,6 +2829,13 @@ class UVData(UVBase):
                     key_print = int(orig_pol)
                 raise KeyError(f"Polarization {key_print} not found in data.")
 
+            # If both orientations are present but the polarization only exists for
+            # one of them, only return that one.
+            if pol_ind1 is None:
+                blt_ind1 = None
+            if pol_ind2 is None:
+                blt_ind2 = None
+
         # Convert to slices if possible
         pol_ind = (utils.tools.slicify(pol_ind[0]), utils.tools.slicify(pol_ind[1]))
 
-- 
2.43.0


From bd47c014b85f232cc0302db4600978e52324db0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:02 +0000
Subject: [PATCH 12/66] fix: polarization-string lookups made before changing
 x_orientation are not reused

---
 src/pyuvdata/uvdata/uvdata.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index f67c078..8eb9f49 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -2723,8 +2723,10 @@ class UVData(UVBase):
         if not isinstance(key, str):
             key = tuple(key)
 
-        if key in self.__key2ind_cache:
-            return self.__key2ind_cache[key]
+        # the meaning of polarization strings depends on the x_orientation
+        cache_key = (key, self.telescope.x_orientation)
+        if cache_key in self.__key2ind_cache:
+            return self.__key2ind_cache[cache_key]
 
         if isinstance(key, str):
             # Single string given, assume it is polarization
@@ -2839,7 +2841,7 @@ class UVData(UVBase):
         # Convert to slices if possible
         pol_ind = (utils.tools.slicify(pol_ind[0]), utils.tools.slicify(pol_ind[1]))
 
-        self.__key2ind_cache[key] = (blt_ind1, blt_ind2, pol_ind)
+        self.__key2ind_cache[cache_key] = (blt_ind1, blt_ind2, pol_ind)
         return (blt_ind1, blt_ind2, pol_ind)
 
     def _smart_slicing(
-- 
2.43.0


From 78d173e12fc716aaff81058ac5f2d92021e1656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:10 +0000
Subject: [PATCH 13/66] fix: reorder_blts reorders scan_number_array with the
 other per-blt quantities

---
 src/pyuvdata/uvdata/uvdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 8eb9f49..db5daf0 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4063,6 +4063,8 @@ class UVData(UVBase):
         self.phase_center_app_dec = self.phase_center_app_dec[index_array]
         self.phase_center_frame_pa = self.phase_center_frame_pa[index_array]
         self.phase_center_id_array = self.phase_center_id_array[index_array]
+        if self.scan_number_array is not None:
+            self.scan_number_array = self.scan_number_array[index_array]
 
         if not self.metadata_only:
             self.data_array = self.data_array[index_array]
-- 
2.43.0


From 8ec1f21fea694176a32c1a8ccac0a9cfb33e452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:20 +0000
Subject: [PATCH 14/66] fix: determine_blt_order sets the expected length of
 the order it finds

---
 src/pyuvdata/uvdata/uvdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index db5daf0..e3c08ce 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3843,6 +3843,8 @@ class UVData(UVBase):
             Ntimes=self.Ntimes,
         )
         self.blt_order = order
+        if order is not None:
+            self._blt_order.form = (len(order),)
         return order
 
     def reorder_blts(
-- 
2.43.0


From 667997136184aa5bfc9a0f3493de7fbaa913bb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:20 +0000
Subject: [PATCH 15/66] fix: reorder_blts and reorder_pols reject index arrays
 that repeat or omit entries

---
 src/pyuvdata/uvdata/uvdata.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index e3c08ce..af92c85 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3768,8 +3768,7 @@ class UVData(UVBase):
             if (
                 order.size != self.Npols
                 or order.dtype not in [int, np.int_, np.int32, np.int64]
-                or np.min(order) < 0
-                or np.max(order) >= self.Npols
+                or not np.array_equal(np.sort(order), np.arange(self.Npols))
             ):
                 raise ValueError(
                     "If order is an index array, it must "
@@ -3920,12 +3919,11 @@ class UVData(UVBase):
         """
         if isinstance(order, (np.ndarray, list, tuple)):
             order = np.array(order)
-            if order.size != self.Nblts or order.dtype not in [
-                int,
-                np.int_,
-                np.int32,
-                np.int64,
-            ]:
+            if (
+                order.size != self.Nblts
+                or order.dtype not in [int, np.int_, np.int32, np.int64]
+                or not np.array_equal(np.sort(order), np.arange(self.Nblts))
+            ):
                 raise ValueError(
                     "If order is an index array, it must "
                     "contain integers and be length Nblts."
-- 
2.43.0


From a462d05472ad8f75a54bd3888f61572261ffdae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:11 +0000
Subject: [PATCH 16/66] fix: UVData.__add__ keeps data with its labels when
 other's new entries precede common ones

---
 src/pyuvdata/uvdata/uvdata.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index af92c85..cdce474 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -5749,9 +5749,17 @@ class UVData(UVBase):
         blt_t2o = np.nonzero(np.isin(this_blts, other_blts))[0]
 
         if not self.metadata_only:
-            this.data_array[np.ix_(blt_t2o, freq_t2o, pol_t2o)] = other.data_array
-            this.nsample_array[np.ix_(blt_t2o, freq_t2o, pol_t2o)] = other.nsample_array
-            this.flag_array[np.ix_(blt_t2o, freq_t2o, pol_t2o)] = other.flag_array
+            # On each axis of this, the entries in common with other come first (in
+            # the order they have on other), followed by the new ones from other.
+            this_inds = np.ix_(blt_t2o, freq_t2o, pol_t2o)
+            other_inds = np.ix_(
+                np.concatenate([np.sort(other_blts_ind), bnew_inds]).astype(int),
+                np.concatenate([np.sort(other_freq_ind), fnew_inds]).astype(int),
+                np.concatenate([np.sort(other_pol_ind), pnew_inds]).astype(int),
+            )
+            this.data_array[this_inds] = other.data_array[other_inds]
+            this.nsample_array[this_inds] = other.nsample_array[other_inds]
+            this.flag_array[this_inds] = other.flag_array[other_inds]
 
             # Fix ordering
             axis_dict = {
-- 
2.43.0


From a9e29a7f5278882c9bff8fd437adefcb834ab4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:25 +0000
Subject: [PATCH 17/66] fix: combining UVData objects carries scan_number_array
 and eq_coeffs along

---
 src/pyuvdata/uvdata/uvdata.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index cdce474..764d52a 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -5656,6 +5656,12 @@ class UVData(UVBase):
             this.phase_center_id_array = np.concatenate(
                 [this.phase_center_id_array, other.phase_center_id_array[bnew_inds]]
             )[blt_order]
+            if this.scan_number_array is None or other.scan_number_array is None:
+                this.scan_number_array = None
+            else:
+                this.scan_number_array = np.concatenate(
+                    [this.scan_number_array, other.scan_number_array[bnew_inds]]
+                )[blt_order]
 
         f_order = None
         if len(fnew_inds) > 0:
@@ -5665,6 +5671,12 @@ class UVData(UVBase):
             this.channel_width = np.concatenate(
                 [this.channel_width, other.channel_width[fnew_inds]]
             )
+            if this.eq_coeffs is None or other.eq_coeffs is None:
+                this.eq_coeffs = None
+            else:
+                this.eq_coeffs = np.concatenate(
+                    [this.eq_coeffs, other.eq_coeffs[:, fnew_inds]], axis=1
+                )
 
             this.flex_spw_id_array = np.concatenate(
                 [this.flex_spw_id_array, other.flex_spw_id_array[fnew_inds]]
@@ -5780,6 +5792,8 @@ class UVData(UVBase):
             this.freq_array = this.freq_array[f_order]
             this.channel_width = this.channel_width[f_order]
             this.flex_spw_id_array = this.flex_spw_id_array[f_order]
+            if this.eq_coeffs is not None:
+                this.eq_coeffs = this.eq_coeffs[:, f_order]
 
         if len(pnew_inds) > 0:
             this.polarization_array = this.polarization_array[p_order]
@@ -6114,6 +6128,12 @@ class UVData(UVBase):
             this.flex_spw_id_array = np.concatenate(
                 [this.flex_spw_id_array] + [obj.flex_spw_id_array for obj in other]
             )
+            if any(obj.eq_coeffs is None for obj in [this, *other]):
+                this.eq_coeffs = None
+            else:
+                this.eq_coeffs = np.concatenate(
+                    [this.eq_coeffs] + [obj.eq_coeffs for obj in other], axis=1
+                )
             this.spw_array = np.concatenate(
                 [this.spw_array] + [obj.spw_array for obj in other]
             )
@@ -6215,6 +6235,14 @@ class UVData(UVBase):
                 [this.phase_center_id_array]
                 + [obj.phase_center_id_array for obj in other]
             )
+            if any(obj.scan_number_array is None for obj in [this, *other]):
+                this.scan_number_array = None
+            else:
+                this.scan_number_array = np.concatenate(
+                    [this.scan_number_array] + [obj.scan_number_array for obj in other]
+                )
+            # the concatenated blts are in general not in any known order
+            this.blt_order = None
             if not self.metadata_only:
                 this.data_array = np.concatenate(
                     [this.data_array] + [obj.data_array for obj in other], axis=0
-- 
2.43.0


From eb3dd40e1d9988dd272ff6c98caeed1a1cf71f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:28 +0000
Subject: [PATCH 18/66] fix: UVData.fast_concat keeps phase center ids
 consistent for several objects and leaves them unchanged

---
 src/pyuvdata/uvdata/uvdata.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 764d52a..4cc8a09 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6034,17 +6034,17 @@ class UVData(UVBase):
             )
 
         # update the phase_center_catalog to make them consistent across objects
-        # Doing this as a binary tree merge
-        # The left object in each loop will have its phase center IDs updated.
-        uv_list = [this] + other
-        while len(uv_list) > 1:
-            for uv1, uv2 in zip(uv_list[0::2], uv_list[1::2]):
-                uv1._consolidate_phase_center_catalogs(
-                    other=uv2, ignore_name=ignore_name
-                )
-            uv_list = uv_list[0::2]
-        # Because self was at the beginning of the list,
-        # all the phase centers are merged into it at the end of this loop
+        # Use copies of the metadata of the other objects so that those objects are
+        # not changed.
+        other_meta = [obj.copy(metadata_only=True) for obj in other]
+        for obj in other_meta:
+            this._consolidate_phase_center_catalogs(other=obj, ignore_name=ignore_name)
+        # Now all the phase centers are merged into this, but merging the later objects
+        # can have changed the IDs used for the earlier ones.
+        for obj in other_meta:
+            obj._consolidate_phase_center_catalogs(
+                reference_catalog=this.phase_center_catalog, ignore_name=ignore_name
+            )
 
         compatibility_params = ["_vis_units", "_telescope"]
 
@@ -6106,7 +6106,7 @@ class UVData(UVBase):
                         )
 
         # Actually check compatibility parameters
-        for obj in other:
+        for obj in other_meta:
             for a in compatibility_params:
                 params_match = getattr(this, a) == getattr(obj, a)
                 if not params_match:
@@ -6233,7 +6233,7 @@ class UVData(UVBase):
             )
             this.phase_center_id_array = np.concatenate(
                 [this.phase_center_id_array]
-                + [obj.phase_center_id_array for obj in other]
+                + [obj.phase_center_id_array for obj in other_meta]
             )
             if any(obj.scan_number_array is None for obj in [this, *other]):
                 this.scan_number_array = None
-- 
2.43.0


From 88bdea690d434848c0615a5e359de159fc44fd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:06 +0000
Subject: [PATCH 19/66] fix: partial UVH5 reads update the baseline-time layout
 attributes

---
 src/pyuvdata/uvdata/uvh5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index b6b6008..3ddd03c 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -817,6 +817,9 @@ class UVH5(UVData):
                 history_update_string=history_update_string,
                 keep_all_metadata=keep_all_metadata,
             )
+            # the layout recorded in the file describes all the blts, not this subset
+            if blt_inds is not None and self.blts_are_rectangular is not None:
+                self.set_rectangularity(force=True)
 
             # determine which axes can be sliced, rather than fancy indexed
             # max_nslice_frac of 0.1 yields slice speedup over fancy index for HERA data
-- 
2.43.0


From f870a0d95f5a47418a864b315a7a218969111ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:10 +0000
Subject: [PATCH 20/66] fix: reads keeping every blt drop unused antennas when
 keep_all_metadata is False

---
 src/pyuvdata/uvdata/uvfits.py | 9 +++++++++
 src/pyuvdata/uvdata/uvh5.py   | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvfits.py b/src/pyuvdata/uvdata/uvfits.py
index 6a4a483..4a885a4 100644
--- a/src/pyuvdata/uvdata/uvfits.py
+++ b/src/pyuvdata/uvdata/uvfits.py
@@ -261,6 +261,15 @@ class UVFITS(UVData):
 
         if min_frac == 1:
             # no select, read in all the data
+            if blt_inds is not None and not keep_all_metadata:
+                # all the blts were asked for, only the unused antennas go
+                self._select_by_index(
+                    blt_inds=blt_inds,
+                    freq_inds=None,
+                    pol_inds=None,
+                    history_update_string="",
+                    keep_all_metadata=False,
+                )
             if vis_hdu.header["NAXIS"] == 7:
                 raw_data_array = vis_hdu.data.data[:, 0, 0, :, :, :, :]
                 assert self.Nspws == raw_data_array.shape[1]
diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index 3ddd03c..af13674 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -798,6 +798,15 @@ class UVH5(UVData):
 
         if min_frac == 1:
             # no select, read in all the data
+            if blt_inds is not None and not keep_all_metadata:
+                # all the blts were asked for, only the unused antennas go
+                self._select_by_index(
+                    blt_inds=blt_inds,
+                    freq_inds=None,
+                    pol_inds=None,
+                    history_update_string="",
+                    keep_all_metadata=False,
+                )
             inds = (np.s_[:], np.s_[:], np.s_[:])
             if custom_dtype:
                 self.data_array = hdf5_utils._read_complex_astype(
-- 
2.43.0


From 8e7b1af2e27cb2b9fa169cab908c82b9d6cc4449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:07 +0000
Subject: [PATCH 21/66] fix: UVCal.reorder_times moves scan_number_array with
 the times

---
 src/pyuvdata/uvcal/uvcal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 1537e43..7a7ff16 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -2366,6 +2366,8 @@ class UVCal(UVBase):
             self.lst_range = self.lst_range[index_array]
         if self.phase_center_id_array is not None:
             self.phase_center_id_array = self.phase_center_id_array[index_array]
+        if self.scan_number_array is not None:
+            self.scan_number_array = self.scan_number_array[index_array]
         if self.ref_antenna_array is not None:
             self.ref_antenna_array = self.ref_antenna_array[index_array]
         self.integration_time = self.integration_time[index_array]
-- 
2.43.0


From 93fae2dff89c88bf9c553ed2ea011b5ca6022e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:21 +0000
Subject: [PATCH 22/66] fix: UVBeam.select keeps polarization labels with their
 data when asked for out of order or twice

---
 src/pyuvdata/uvbeam/uvbeam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 36991c2..cb8984f 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -3211,10 +3211,11 @@ class UVBeam(UVBase):
                         " polarization_array".format(p=p)
                     )
 
+            pol_inds = sorted(set(pol_inds))
+
             initial_pols = beam_object.polarization_array.copy()
             final_pols = beam_object.polarization_array[pol_inds]
 
-            pol_inds = sorted(set(pol_inds))
             beam_object.Npols = len(pol_inds)
             beam_object.polarization_array = final_pols
 
-- 
2.43.0


From 2affec28a42a69a8814666d3c530cb17dac64b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:21 +0000
Subject: [PATCH 23/66] fix: UVFlag.select keeps each antenna once, in stored
 order

---
 src/pyuvdata/uvflag/uvflag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index cb5faa7..08a8b06 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -2529,6 +2529,7 @@ class UVFlag(UVBase):
                             "Antenna number {a} is not present in the "
                             "ant_array".format(a=ant)
                         )
+                ant_inds = sorted(set(ant_inds))
 
         else:
             ant_blt_inds = None
-- 
2.43.0


From 7da1bd1430627cf6018168a96dc1507f9f2c9298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:03 +0000
Subject: [PATCH 24/66] fix: uvcalibrate applies each gain to its own frequency
 and time

---
 src/pyuvdata/utils/uvcalibrate.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/utils/uvcalibrate.py b/src/pyuvdata/utils/uvcalibrate.py
index fb01f55..76cc0d6 100644
--- a/src/pyuvdata/utils/uvcalibrate.py
+++ b/src/pyuvdata/utils/uvcalibrate.py
@@ -137,6 +137,16 @@ def _apply_pol_convention_corrections(
     uvdata.pol_convention = None if undo else uvd_pol_convention
 
 
+def _match_axis(data_vals, cal_vals, tols):
+    """Get the index on the UVCal axis that matches each value on the UVData axis."""
+    if data_vals.shape == cal_vals.shape and np.allclose(
+        cal_vals, data_vals, rtol=tols[0], atol=tols[1]
+    ):
+        # already in the same order
+        return np.arange(data_vals.size)
+    return np.array([np.argmin(np.abs(cal_vals - val)) for val in data_vals], dtype=int)
+
+
 def uvcalibrate(
     uvdata,
     uvcal,
@@ -516,6 +526,18 @@ def uvcalibrate(
             zip(uvcal.telescope.antenna_names, uvcal.telescope.antenna_numbers)
         )
 
+        # indices which put the gains in the order of the UVData axes
+        freq_inds = _match_axis(
+            uvdata.freq_array, uvcal_use.freq_array, uvdata._freq_array.tols
+        )
+        time_inds = None
+        if uvcal.time_range is not None and uvcal.Ntimes > 1:
+            time_inds = trange_ind_arr
+        elif uvcal_use.Ntimes > 1:
+            time_inds = _match_axis(
+                uvdata_times, uvcal_use.time_array, uvdata._time_array.tols
+            )[uvd_time_ri]
+
         # iterate over keys
         for key in uvdata.get_antpairpols():
             # get indices for this key
@@ -559,9 +581,11 @@ def uvcalibrate(
                 ).T  # tranpose to match uvdata shape
             flag = (uvcal_use.get_flags(uvcal_key1) | uvcal_use.get_flags(uvcal_key2)).T
 
-            if uvcal.time_range is not None and uvcal.Ntimes > 1:
-                gain = gain[trange_ind_arr[blt_inds], :]
-                flag = flag[trange_ind_arr[blt_inds], :]
+            gain = gain[:, freq_inds]
+            flag = flag[:, freq_inds]
+            if time_inds is not None:
+                gain = gain[time_inds[blt_inds], :]
+                flag = flag[time_inds[blt_inds], :]
 
             # propagate flags
             if prop_flags:
-- 
2.43.0


From 705656362a7b100f56677e33c4b83e59f6f3764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:32 +0000
Subject: [PATCH 25/66] fix: frequency_average handles fully flagged channels
 in later spectral windows

---
 src/pyuvdata/uvdata/uvdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 4cc8a09..45f9c8d 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8496,10 +8496,10 @@ class UVData(UVBase):
                         # May not happen due to propagate_flags keyword
                         # mask should be left alone otherwise
                         fully_flagged = np.all(
-                            reg_mask[ax0_inds, this_chan, :, ax2_inds], axis=1
+                            reg_mask[ax0_inds, chan_ind, :, ax2_inds], axis=1
                         )
                         ff_inds = np.nonzero(fully_flagged)
-                        reg_mask[ax0_inds[ff_inds], this_chan, :, ax2_inds[ff_inds]] = (
+                        reg_mask[ax0_inds[ff_inds], chan_ind, :, ax2_inds[ff_inds]] = (
                             False
                         )
                 if this_ragged:
-- 
2.43.0


From f7e43a53382b2384dfa81299c4d41ed75d0555d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:32 +0000
Subject: [PATCH 26/66] fix: downsample_in_time accepts baselines with a single
 time

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 45f9c8d..1e2c8df 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7887,7 +7887,7 @@ class UVData(UVBase):
                         "The output may include averages across long "
                         "time gaps.".format(bl=self.baseline_to_antnums(bl))
                     )
-                elif not np.isclose(
+                elif dtime.size > 0 and not np.isclose(
                     dtime[0],
                     int_times[0],
                     rtol=self._integration_time.tols[0],
-- 
2.43.0


From cb6eb8d3cab4f28f141090ee6c5a90e0eb5ae905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:32 +0000
Subject: [PATCH 27/66] fix: upsample_in_time keeps records whose integration
 time matches max_int_time within tolerance

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 1e2c8df..3b42ca7 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7640,7 +7640,7 @@ class UVData(UVBase):
             i0 = i1
 
         # harmonize temporary arrays with existing ones
-        inds_to_keep = np.nonzero(self.integration_time <= max_int_time)
+        inds_to_keep = np.setdiff1d(np.arange(self.Nblts), inds_to_upsample[0])
         self._harmonize_resample_arrays(
             inds_to_keep=inds_to_keep,
             temp_baseline=temp_baseline,
-- 
2.43.0


From 94f6d7785be0a042e7a00d90e61333bae382a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:41 +0000
Subject: [PATCH 28/66] fix: frequency_average accepts eq_coeffs on a single
 channel

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 3b42ca7..866dc9e 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8344,7 +8344,7 @@ class UVData(UVBase):
 
         if self.eq_coeffs is not None:
             eq_coeff_diff = np.diff(self.eq_coeffs, axis=1)
-            if np.abs(np.max(eq_coeff_diff)) > 0:
+            if np.any(np.abs(eq_coeff_diff) > 0):
                 warnings.warn(
                     "eq_coeffs vary by frequency. They should be "
                     "applied to the data using `remove_eq_coeffs` "
-- 
2.43.0


From 727856b8dbc6602f9587d4305c552a52b283a5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:17 +0000
Subject: [PATCH 29/66] fix: resampling in time updates Nbls and Nants_data

---
 src/pyuvdata/uvdata/uvdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 866dc9e..15fa3c5 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7441,6 +7441,8 @@ class UVData(UVBase):
 
         # update metadata
         self.Nblts = self.baseline_array.shape[0]
+        self.Nbls = np.unique(self.baseline_array).size
+        self.Nants_data = self._calc_nants_data()
         self.Ntimes = np.unique(self.time_array).size
         self.uvw_array = np.zeros((self.Nblts, 3))
 
-- 
2.43.0


From 47e1083fc2916b9bcbf43a8757e452510ff6d9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:15 +0000
Subject: [PATCH 30/66] fix: apply_uvflag reorders the flags along with the
 polarization labels

---
 src/pyuvdata/utils/apply_uvflag.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/utils/apply_uvflag.py b/src/pyuvdata/utils/apply_uvflag.py
index a43f92b..7f7a38d 100644
--- a/src/pyuvdata/utils/apply_uvflag.py
+++ b/src/pyuvdata/utils/apply_uvflag.py
@@ -71,9 +71,10 @@ def apply_uvflag(
                 raise ValueError("Input uvf and uvd polarizations do not match")
 
         # make sure polarization ordering is correct: also edits inplace
-        uvf.polarization_array = uvf.polarization_array[
-            [uvd_pols.index(pol) for pol in uvf_pols]
-        ]
+        pol_order = [uvf_pols.index(pol) for pol in uvd_pols]
+        uvf.polarization_array = uvf.polarization_array[pol_order]
+        if uvf.flag_array.shape[-1] > 1:
+            uvf.flag_array = uvf.flag_array[..., pol_order]
 
     # check time and freq shapes match: if Ntimes or Nfreqs is 1, allow
     # implicit broadcasting
-- 
2.43.0


From 9c2e753a94d7cdf5de044846a994fb64b69bb15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:15 +0000
Subject: [PATCH 31/66] fix: apply_uvflag rejects time and frequency mismatches
 of either sign

---
 src/pyuvdata/utils/apply_uvflag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/utils/apply_uvflag.py b/src/pyuvdata/utils/apply_uvflag.py
index 7f7a38d..c933d7f 100644
--- a/src/pyuvdata/utils/apply_uvflag.py
+++ b/src/pyuvdata/utils/apply_uvflag.py
@@ -82,7 +82,7 @@ def apply_uvflag(
         mismatch_times = False
     elif uvf.Ntimes == uvd.Ntimes:
         tdiff = np.unique(uvf.time_array) - np.unique(uvd.time_array)
-        mismatch_times = np.any(tdiff > np.max(np.abs(uvf._time_array.tols)))
+        mismatch_times = np.any(np.abs(tdiff) > np.max(np.abs(uvf._time_array.tols)))
     else:
         mismatch_times = True
     if mismatch_times:
@@ -92,7 +92,7 @@ def apply_uvflag(
         mismatch_freqs = False
     elif uvf.Nfreqs == uvd.Nfreqs:
         fdiff = np.unique(uvf.freq_array) - np.unique(uvd.freq_array)
-        mismatch_freqs = np.any(fdiff > np.max(np.abs(uvf._freq_array.tols)))
+        mismatch_freqs = np.any(np.abs(fdiff) > np.max(np.abs(uvf._freq_array.tols)))
     else:
         mismatch_freqs = True
     if mismatch_freqs:
-- 
2.43.0


From d1965d7b64502fe40b7eb7c35bfc0e5551c7f21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:15 +0000
Subject: [PATCH 32/66] fix: apply_uvflag matches flags to data by time and
 frequency

---
 src/pyuvdata/utils/apply_uvflag.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/pyuvdata/utils/apply_uvflag.py b/src/pyuvdata/utils/apply_uvflag.py
index c933d7f..2439427 100644
--- a/src/pyuvdata/utils/apply_uvflag.py
+++ b/src/pyuvdata/utils/apply_uvflag.py
@@ -98,6 +98,14 @@ def apply_uvflag(
     if mismatch_freqs:
         raise ValueError("UVFlag and UVData have mismatched frequency arrays.")
 
+    # put the flags in the frequency order of the data
+    if uvf.Nfreqs > 1:
+        freq_order = np.empty(uvd.Nfreqs, dtype=int)
+        freq_order[np.argsort(uvd.freq_array, kind="stable")] = np.argsort(
+            uvf.freq_array, kind="stable"
+        )
+        uvf.flag_array = uvf.flag_array[:, freq_order]
+
     # unflag if desired
     if unflag_first:
         uvd.flag_array[:] = False
@@ -112,6 +120,18 @@ def apply_uvflag(
                 uvd.flag_array[uvd_ap_inds] = True
             continue
         uvf_ap_inds = uvf.antpair2ind(*ap)
+        if uvf.Ntimes > 1:
+            # match the records of this antpair by time
+            uvd_ap_inds = np.arange(uvd.Nblts)[uvd_ap_inds]
+            uvf_ap_inds = np.arange(uvf.Nblts)[uvf_ap_inds]
+            time_match = np.abs(
+                uvd.time_array[uvd_ap_inds][:, np.newaxis] - uvf.time_array[uvf_ap_inds]
+            ) <= np.max(np.abs(uvf._time_array.tols))
+            matched = np.any(time_match, axis=1)
+            if flag_missing:
+                uvd.flag_array[uvd_ap_inds[~matched]] = True
+            uvd_ap_inds = uvd_ap_inds[matched]
+            uvf_ap_inds = uvf_ap_inds[np.argmax(time_match[matched], axis=1)]
         # addition of boolean is OR
         uvd.flag_array[uvd_ap_inds] += uvf.flag_array[uvf_ap_inds]
 
-- 
2.43.0


From 7a143de567c57f32ecd5cd7e5c1e6ea5be8a5194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:15 +0000
Subject: [PATCH 33/66] fix: UVFlag.to_baseline uses each time's own waterfall
 row

---
 src/pyuvdata/uvflag/uvflag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 08a8b06..af79487 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1512,7 +1512,7 @@ class UVFlag(UVBase):
                 arr = np.zeros_like(uv.flag_array, dtype=np.float64)
                 warr = np.zeros_like(uv.flag_array, dtype=np.float64)
                 sarr = self.metric_array
-            for i, t in enumerate(np.unique(self.time_array)):
+            for i, t in enumerate(self.time_array):
                 ti = np.where(
                     np.isclose(
                         uv.time_array,
-- 
2.43.0


From 347b9b0ef7787cf699805c67cf15bc305372062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:31 +0000
Subject: [PATCH 34/66] fix: UVFlag.to_baseline updates Ntimes to the
 template's times

---
 src/pyuvdata/uvflag/uvflag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index af79487..525ff3d 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1587,6 +1587,7 @@ class UVFlag(UVBase):
         self.time_array = uv.time_array
         self.lst_array = uv.lst_array
         self.Nblts = self.time_array.size
+        self.Ntimes = np.unique(self.time_array).size
 
         for param in self.telescope:
             this_param = getattr(self.telescope, param)
-- 
2.43.0


From 56c3e61c15473f5e4e95916c66605452e1bc1581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:47 +0000
Subject: [PATCH 35/66] fix: inflate_by_redundancy expands scan_number_array

---
 src/pyuvdata/uvdata/uvdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 15fa3c5..ffb8e73 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -9023,6 +9023,8 @@ class UVData(UVBase):
         self.lst_array = self.lst_array[blt_map]
         self.integration_time = self.integration_time[blt_map]
         self.uvw_array = self.uvw_array[blt_map, ...]
+        if self.scan_number_array is not None:
+            self.scan_number_array = self.scan_number_array[blt_map]
 
         self.baseline_array = full_baselines
         self.ant_1_array, self.ant_2_array = self.baseline_to_antnums(
-- 
2.43.0


From 57ea6297a22479aa4bf02066cb238df83aba9c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:46 +0000
Subject: [PATCH 36/66] fix: compress_by_redundancy swaps cross-hand
 polarizations of reversed baselines

---
 src/pyuvdata/uvdata/uvdata.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index ffb8e73..a776fe7 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8778,6 +8778,11 @@ class UVData(UVBase):
                 # tabulated assuming that the baseline position is on the opposite
                 # side of the uvw origin).
                 fix_conj = np.isin(new_obj.baseline_array, conjugates)
+                if len(conjugates) > 0 and self.flex_spw_polarization_array is None:
+                    # reversing a baseline also swaps the cross-hand polarizations
+                    conj_pol_inds = utils.pol.reorder_conj_pols(self.polarization_array)
+                else:
+                    conj_pol_inds = np.arange(self.Npols)
 
                 # initalize the data like arrays
                 new_data_shape = (new_obj.Nblts, new_obj.Nfreqs, new_obj.Npols)
@@ -8890,17 +8895,20 @@ class UVData(UVBase):
                         vis_to_avg = np.concatenate(
                             (
                                 self.data_array[regular_inds],
-                                np.conj(self.data_array[conj_inds]),
+                                np.conj(self.data_array[conj_inds][..., conj_pol_inds]),
                             )
                         )
                         nsample_to_avg = np.concatenate(
                             (
                                 self.nsample_array[regular_inds],
-                                self.nsample_array[conj_inds],
+                                self.nsample_array[conj_inds][..., conj_pol_inds],
                             )
                         )
                         flags_to_avg = np.concatenate(
-                            (self.flag_array[regular_inds], self.flag_array[conj_inds])
+                            (
+                                self.flag_array[regular_inds],
+                                self.flag_array[conj_inds][..., conj_pol_inds],
+                            )
                         )
                         # if all data is flagged, average it all as if it were not
                         if np.all(flags_to_avg):
@@ -8922,7 +8930,11 @@ class UVData(UVBase):
                         # If we need to flip the conjugation, to that on the
                         # value assignment here.
                         if fix_conj[this_obj_ind]:
-                            temp_data_array[this_obj_ind] = np.conj(avg_vis)
+                            temp_data_array[this_obj_ind] = np.conj(
+                                avg_vis[..., conj_pol_inds]
+                            )
+                            avg_nsample = avg_nsample[..., conj_pol_inds]
+                            avg_flag = avg_flag[..., conj_pol_inds]
                         else:
                             temp_data_array[this_obj_ind] = avg_vis
                         temp_nsample_array[this_obj_ind] = avg_nsample
-- 
2.43.0


From 2e0806e7f14e7c348daf253c8e0f7447737a349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:36 +0000
Subject: [PATCH 37/66] fix: UVBeam.interp returns the whole bandpass when not
 interpolating in frequency

---
 src/pyuvdata/uvbeam/uvbeam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index cb8984f..ed7567c 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -1379,7 +1379,7 @@ class UVBeam(UVBase):
             input_data_array = self.data_array
             input_nfreqs = self.Nfreqs
             freq_array = self.freq_array
-            interp_bandpass = self.bandpass_array[0]
+            interp_bandpass = self.bandpass_array
             if self.antenna_type == "phased_array":
                 interp_coupling_matrix = self.coupling_matrix
 
@@ -1660,7 +1660,7 @@ class UVBeam(UVBase):
             input_data_array = self.data_array
             input_nfreqs = self.Nfreqs
             freq_array = self.freq_array[0]
-            interp_bandpass = self.bandpass_array[0]
+            interp_bandpass = self.bandpass_array
             if self.antenna_type == "phased_array":
                 interp_coupling_matrix = self.coupling_matrix
 
-- 
2.43.0


From 31013aa7bd1fdd7865485143524484911a848556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:46 +0000
Subject: [PATCH 38/66] fix: UVBeam.interp labels the polarizations of the new
 object

---
 src/pyuvdata/uvbeam/uvbeam.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index ed7567c..a03eaa4 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -2099,6 +2099,18 @@ class UVBeam(UVBase):
             history_update_string += "."
             new_uvb.history = new_uvb.history + history_update_string
             new_uvb.data_array = interp_data
+            if (
+                self.beam_type == "power"
+                and polarizations is not None
+                and az_array_use is not None
+            ):
+                new_uvb.polarization_array = np.array(
+                    [
+                        utils.polstr2num(p, x_orientation=self.x_orientation)
+                        for p in polarizations
+                    ]
+                )
+                new_uvb.Npols = new_uvb.polarization_array.size
             if new_uvb.basis_vector_array is not None:
                 new_uvb.basis_vector_array = interp_basis_vector
 
-- 
2.43.0


From 3f1456530f78ada03fd4c04835c1b0db1cda5853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:25 +0000
Subject: [PATCH 39/66] fix: UVBeam healpix interpolation rejects pixels stored
 in reverse order

---
 src/pyuvdata/uvbeam/uvbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index a03eaa4..65b34ff 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -1639,7 +1639,7 @@ class UVBeam(UVBase):
             raise ValueError(
                 "simple healpix interpolation requires full sky healpix maps."
             )
-        if not np.max(np.abs(np.diff(self.pixel_array))) == 1:
+        if not np.all(np.diff(self.pixel_array) == 1):
             raise ValueError(
                 "simple healpix interpolation requires healpix pixels to be in order."
             )
-- 
2.43.0


From ec1a5d0bcce84f0de0ce86ba974d44657f5dc80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:09 +0000
Subject: [PATCH 40/66] fix: comparing nested dictionaries of different
 structure or with lists of strings does not raise

---
 src/pyuvdata/parameter.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/parameter.py b/src/pyuvdata/parameter.py
index fac86c3..6ebe9b1 100644
--- a/src/pyuvdata/parameter.py
+++ b/src/pyuvdata/parameter.py
@@ -115,7 +115,12 @@ def _param_dict_equal(this_dict, other_dict):
         # need to check if values are close,
         # not just equal
         for key in this_lower.keys():
-            if isinstance(this_lower[key], dict):
+            if isinstance(this_lower[key], dict) or isinstance(other_lower[key], dict):
+                if not isinstance(this_lower[key], dict) or not isinstance(
+                    other_lower[key], dict
+                ):
+                    message_str = f", key {key} is not equal"
+                    return False, message_str
                 # nested dict, use recursion
                 subdict_equal, subdict_message = _param_dict_equal(
                     this_lower[key], other_lower[key]
@@ -142,13 +147,21 @@ def _param_dict_equal(this_dict, other_dict):
                 if this_array.shape != other_array.shape:
                     message_str = f", key {key} is not equal"
                     return False, message_str
-                if np.allclose(this_array, other_array):
+                try:
+                    arrays_equal = np.allclose(this_array, other_array)
+                except TypeError:
+                    # this isn't a type that can be handled by np.allclose
+                    arrays_equal = np.array_equal(this_array, other_array)
+                if arrays_equal:
                     continue
                 else:
                     message_str = f", key {key} is not equal"
                     return False, message_str
             else:
-                # this isn't a list, array or tuple
+                # at least one of these isn't a list, array or tuple
+                if np.shape(this_lower[key]) != np.shape(other_lower[key]):
+                    message_str = f", key {key} is not equal"
+                    return False, message_str
                 try:
                     if np.isclose(this_lower[key], other_lower[key]):
                         continue
-- 
2.43.0


From e9be4354e7663bfc0f9ab538af7c82adbe909784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:37 +0000
Subject: [PATCH 41/66] fix: list and scalar parameters of different shape are
 not equal

---
 src/pyuvdata/parameter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyuvdata/parameter.py b/src/pyuvdata/parameter.py
index 6ebe9b1..cd06a49 100644
--- a/src/pyuvdata/parameter.py
+++ b/src/pyuvdata/parameter.py
@@ -553,6 +553,13 @@ class UVParameter:
                             "but other is an array"
                         )
                     return False
+                if np.shape(self.value) != np.shape(other.value):
+                    if not silent:
+                        print(
+                            f"{self.name} parameter value is not an array, shapes "
+                            "are different"
+                        )
+                    return False
                 try:
                     if not np.allclose(
                         np.array(self.value),
-- 
2.43.0


From 8873467d01a3adda022b1b60ff553702a07f2a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:59 +0000
Subject: [PATCH 42/66] fix: merging phase centers given more than once does
 not drop the kept entry

---
 src/pyuvdata/uvdata/uvdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index a776fe7..bf7980d 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -1207,6 +1207,9 @@ class UVData(UVBase):
                     raise ValueError(f"No entry with the ID {cat} in the catalog.")
                 cat_id_list.append(cat)
 
+        # An entry given more than once (e.g. by name and by ID) is merged only once
+        cat_id_list = list(dict.fromkeys(cat_id_list))
+
         # Check for the no-op
         if len(cat_id_list) < 2:
             warnings.warn(
-- 
2.43.0


From 95c75612899e2c5be2ef464a8322b092669c46b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:48 +0000
Subject: [PATCH 43/66] fix: unproject_phase with select_mask leaves the uvws
 of other records alone

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index bf7980d..04c3cd2 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4401,7 +4401,7 @@ class UVData(UVBase):
         self._apply_w_proj(
             new_w_vals=0.0, old_w_vals=self.uvw_array[:, 2], select_mask=select_mask_use
         )
-        self.uvw_array = new_uvw
+        self.uvw_array[select_mask_use] = new_uvw[select_mask_use]
 
         # remove/update phase center
         match_id, match_diffs = utils.phase_center_catalog.look_in_catalog(
-- 
2.43.0


From f47f82a61f9bdc844ed097d36ebcb0be1fcc9983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:11 +0000
Subject: [PATCH 44/66] fix: phase with select_mask and use_ant_pos=False uses
 the old coordinates of the selected records

---
 src/pyuvdata/uvdata/uvdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 04c3cd2..7b71306 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4797,6 +4797,9 @@ class UVData(UVBase):
         uvw_array = uvw_array[select_mask, :]
         ant_1_array = ant_1_array[select_mask]
         ant_2_array = ant_2_array[select_mask]
+        old_app_ra = old_app_ra[select_mask]
+        old_app_dec = old_app_dec[select_mask]
+        old_frame_pa = old_frame_pa[select_mask]
 
         # We got the meta-data, now handle calculating the apparent coordinates.
         # First, check if we need to look up the phase center in question
-- 
2.43.0


From 09368667302fc5ee9282251838be88d9b3a09e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:11 +0000
Subject: [PATCH 45/66] fix: phase with lookup_name takes the position angle in
 the frame of the catalog entry

---
 src/pyuvdata/uvdata/uvdata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 7b71306..1ab60c6 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4820,14 +4820,14 @@ class UVData(UVBase):
         )
 
         # Now calculate position angles.
-        if not phase_frame == "altaz":
+        if not phase_dict["cat_frame"] == "altaz":
             new_frame_pa = phs_utils.calc_frame_pos_angle(
                 time_array=time_array,
                 app_ra=new_app_ra,
                 app_dec=new_app_dec,
                 telescope_loc=self.telescope.location,
-                ref_frame=phase_frame,
-                ref_epoch=epoch,
+                ref_frame=phase_dict["cat_frame"],
+                ref_epoch=phase_dict["cat_epoch"],
             )
         else:
             new_frame_pa = np.zeros(time_array.shape, dtype=float)
-- 
2.43.0


From 323dfbf14c580a0eb3ef824611ee9e111c947749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:11 +0000
Subject: [PATCH 46/66] fix: apparent coordinates use the radial velocity of
 the phase center

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 1ab60c6..e109512 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -1573,7 +1573,7 @@ class UVData(UVBase):
                 frame = temp_dict.get("cat_frame")
                 pm_ra = temp_dict.get("cat_pm_ra")
                 pm_dec = temp_dict.get("cat_pm_dec")
-                vrad = temp_dict.get("vrad")
+                vrad = temp_dict.get("cat_vrad")
                 dist = temp_dict.get("cat_dist")
 
                 app_ra[select_mask], app_dec[select_mask] = phs_utils.calc_app_coords(
-- 
2.43.0


From 17d32406ee5b798aa6e5f3dc7eda5328792722d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:11 +0000
Subject: [PATCH 47/66] fix: set_uvws_from_antenna_positions does not phase
 unprojected records

---
 src/pyuvdata/uvdata/uvdata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index e109512..ddca7c6 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -5002,7 +5002,11 @@ class UVData(UVBase):
                 old_w_vals = self.uvw_array[:, 2].copy()
                 # Treat the unprojected values as having no w-proj previously
                 old_w_vals[unprojected_blts] = 0.0
-                self._apply_w_proj(new_w_vals=new_uvw[:, 2], old_w_vals=old_w_vals)
+                self._apply_w_proj(
+                    new_w_vals=new_uvw[:, 2],
+                    old_w_vals=old_w_vals,
+                    select_mask=~unprojected_blts,
+                )
             else:
                 warnings.warn(
                     "Recalculating uvw_array without adjusting visibility "
-- 
2.43.0


From 52da6480d590411802eb33eec008ca20876487a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:11 +0000
Subject: [PATCH 48/66] fix: calc_uvw applies the position angle of each record

---
 src/pyuvdata/utils/phasing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index 994c165..02f1240 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -622,6 +622,8 @@ def calc_uvw(
                     | (app_dec[:-1] != app_dec[1:])
                 ),
             )
+            if frame_pa is not None:
+                unique_mask[1:] |= frame_pa[:-1] != frame_pa[1:]
 
         # GHA -> Hour Angle as measured at Greenwich (because antenna coords are
         # centered such that x-plane intersects the meridian at longitude 0).
-- 
2.43.0


From e515c5163762c7c790cfeb103d9f230d9d02af14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:11 +0000
Subject: [PATCH 49/66] fix: frame position angle of directions within half a
 degree of a pole

---
 src/pyuvdata/utils/phasing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index 02f1240..1044c3f 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -1660,7 +1660,8 @@ def calc_frame_pos_angle(
     # 1 deg arc.
     up_dec = unique_dec + offset_pos
     dn_dec = unique_dec - offset_pos
-    up_ra = dn_ra = unique_ra
+    up_ra = unique_ra.copy()
+    dn_ra = unique_ra.copy()
 
     # Wrap the positions if they happen to go over the poles
     up_ra[up_dec > (np.pi / 2.0)] = np.mod(
@@ -1669,9 +1670,9 @@ def calc_frame_pos_angle(
     up_dec[up_dec > (np.pi / 2.0)] = np.pi - up_dec[up_dec > (np.pi / 2.0)]
 
     dn_ra[-dn_dec > (np.pi / 2.0)] = np.mod(
-        dn_ra[dn_dec > (np.pi / 2.0)] + np.pi, 2.0 * np.pi
+        dn_ra[-dn_dec > (np.pi / 2.0)] + np.pi, 2.0 * np.pi
     )
-    dn_dec[-dn_dec > (np.pi / 2.0)] = np.pi - dn_dec[-dn_dec > (np.pi / 2.0)]
+    dn_dec[-dn_dec > (np.pi / 2.0)] = -np.pi - dn_dec[-dn_dec > (np.pi / 2.0)]
 
     # Run the set of offset coordinates through the "reverse" transform. The two offset
     # positions are concat'd together to help reduce overheads
-- 
2.43.0


From 6ceeff29090e93de5ded6dd476dbda1fafc0d9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:11 +0000
Subject: [PATCH 50/66] fix: frame position angle is calculated for every
 combination of position and time

---
 src/pyuvdata/utils/phasing.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index 1044c3f..b547526 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -1640,13 +1640,9 @@ def calc_frame_pos_angle(
     # This creates an array of unique entries of ra + dec + time, since the processing
     # time for each element can be non-negligible, and entries along the Nblt axis can
     # be highly redundant.
-    unique_mask = np.union1d(
-        np.union1d(
-            np.unique(app_ra, return_index=True)[1],
-            np.unique(app_dec, return_index=True)[1],
-        ),
-        np.unique(time_array, return_index=True)[1],
-    )
+    unique_mask = np.unique(
+        np.stack((app_ra, app_dec, time_array)), axis=1, return_index=True
+    )[1]
 
     # Pluck out the unique entries for each
     unique_ra = app_ra[unique_mask]
-- 
2.43.0


From 0c3b9e7942c5234be0c34b6645d7529c1f2f8e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:45 +0000
Subject: [PATCH 51/66] fix: apparent right ascension of a driftscan direction
 is LST minus the hour angle

---
 src/pyuvdata/utils/phasing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index b547526..eb72042 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -2201,8 +2201,8 @@ def calc_app_coords(
             lon_coord, lat_coord, site_loc.lat.rad
         )
         # The above returns HA/Dec, so we just need to rotate by
-        # the LST to get back app RA and Dec
-        unique_app_ra = np.mod(unique_app_ha + unique_lst, 2 * np.pi)
+        # the LST to get back app RA (= LST - HA) and Dec
+        unique_app_ra = np.mod(unique_lst - unique_app_ha, 2 * np.pi)
         unique_app_dec = unique_app_dec + np.zeros_like(unique_app_ra)
     elif coord_type == "ephem":
         interp_ra, interp_dec, _, _ = interpolate_ephem(
-- 
2.43.0


From f37c97a39355c29b35014710bbe45b962e300311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 52/66] fix: van Vleck correction keeps the sign of negative
 values it cannot correct

---
 src/pyuvdata/uvdata/mwa_corr_fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/mwa_corr_fits.py b/src/pyuvdata/uvdata/mwa_corr_fits.py
index 138eefb..3fd94a1 100644
--- a/src/pyuvdata/uvdata/mwa_corr_fits.py
+++ b/src/pyuvdata/uvdata/mwa_corr_fits.py
@@ -391,7 +391,7 @@ def van_vleck_crosses_int(*, k_arr, sig1_arr, sig2_arr, cheby_approx):
                 str(len(nonzero_inds))
                 + " values are being corrected with the van vleck integral"
             )
-        neg_inds = np.where(k_arr < 0.0)[0]
+        neg_inds = nonzero_inds[k_arr[nonzero_inds] < 0.0]
         khat = np.abs(k_arr[nonzero_inds])
         sig1 = sig1_arr[nonzero_inds]
         sig2 = sig2_arr[nonzero_inds]
-- 
2.43.0


From 755cd8ae452ec88e8068ff2fbf508f1ad608beb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 53/66] fix: channel width placeholder of delay calfits files
 is not an extra keyword

---
 src/pyuvdata/uvcal/calfits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvcal/calfits.py b/src/pyuvdata/uvcal/calfits.py
index b70a649..302bc3b 100644
--- a/src/pyuvdata/uvcal/calfits.py
+++ b/src/pyuvdata/uvcal/calfits.py
@@ -679,6 +679,8 @@ class CALFITS(UVCal):
             if self.cal_type == "delay":
                 self._set_delay()
                 self.Nfreqs = 1
+                # delays have no channel width, this is a placeholder in the file
+                hdr.pop("CHWIDTH", None)
 
                 sechdu = fname[hdunames["FLAGS"]]
                 assert self.Nspws == 1, (
-- 
2.43.0


From c93b36d3cf462e9fb7ea54d4f7adf8aff21294ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 54/66] fix: spectral window axis of real power beams in
 beamfits files

---
 src/pyuvdata/uvbeam/beamfits.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvbeam/beamfits.py b/src/pyuvdata/uvbeam/beamfits.py
index cfd1555..7f45138 100644
--- a/src/pyuvdata/uvbeam/beamfits.py
+++ b/src/pyuvdata/uvbeam/beamfits.py
@@ -700,8 +700,11 @@ class BeamFITS(UVBeam):
                 '"efield" or "power".'.format(type=self.beam_type)
             )
 
-        # Add a third axis to the data for consistency
-        primary_data = primary_data[:, :, np.newaxis]
+        # Add a spectral window axis (after the basis vector axis) for consistency
+        if np.iscomplexobj(self.data_array):
+            primary_data = primary_data[:, :, np.newaxis]
+        else:
+            primary_data = primary_data[:, np.newaxis]
 
         primary_header["CRPIX" + str(ax_nums["feed_pol"])] = 1
 
-- 
2.43.0


From 4db940047f5fb8526c6f77f948232fb46e3f5162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 55/66] fix: rows of ignored single-channel windows are not
 read from measurement sets

---
 src/pyuvdata/uvdata/ms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/ms.py b/src/pyuvdata/uvdata/ms.py
index 73fd904..11efd7f 100644
--- a/src/pyuvdata/uvdata/ms.py
+++ b/src/pyuvdata/uvdata/ms.py
@@ -506,7 +506,7 @@ class MS(UVData):
         if data_desc_count == 0:
             # If there are no records selected, then there isn't a whole lot to do
             return None, None, None, None
-        elif data_desc_count == 1:
+        elif data_desc_count == 1 and len(unique_data_desc) == 1:
             # If we only have a single spectral window, then we can bypass a whole lot
             # of slicing and dicing on account of there being a one-to-one relationship
             # in rows of the MS to the per-blt records of UVData objects.
-- 
2.43.0


From 0f96098eb6265532028277d82601987a1ef56526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 56/66] fix: UVCal.__add__ keeps solutions with their labels
 when other's new entries precede common ones

---
 src/pyuvdata/uvcal/uvcal.py | 39 ++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 7a7ff16..c2f2e03 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3254,26 +3254,29 @@ class UVCal(UVBase):
                     )
                 freqs_t2o = np.nonzero(freqs_t2o)[0]
             ants_t2o = np.nonzero(np.isin(this.ant_array, other.ant_array))[0]
-            if this.cal_type == "delay":
-                this.delay_array[np.ix_(ants_t2o, freqs_t2o, times_t2o, jones_t2o)] = (
-                    other.delay_array
-                )
-            else:
-                this.gain_array[np.ix_(ants_t2o, freqs_t2o, times_t2o, jones_t2o)] = (
-                    other.gain_array
-                )
-            if other.quality_array is not None:
-                this.quality_array[
-                    np.ix_(ants_t2o, freqs_t2o, times_t2o, jones_t2o)
-                ] = other.quality_array
-            this.flag_array[np.ix_(ants_t2o, freqs_t2o, times_t2o, jones_t2o)] = (
-                other.flag_array
-            )
+
+            # On each axis of this, the entries in common with other come first (in
+            # the order they have on other), followed by the new ones from other.
+            this_inds = [ants_t2o, freqs_t2o, times_t2o, jones_t2o]
+            other_inds = [
+                np.concatenate([np.sort(common_inds), new_inds]).astype(int)
+                for common_inds, new_inds in [
+                    (other_ants_ind, anew_inds),
+                    (other_freq_ind, fnew_inds),
+                    (other_times_ind, tnew_inds),
+                    (other_jones_ind, jnew_inds),
+                ]
+            ]
+            for name in [*this._required_data_params, "quality_array"]:
+                if getattr(other, name) is not None:
+                    getattr(this, name)[np.ix_(*this_inds)] = getattr(other, name)[
+                        np.ix_(*other_inds)
+                    ]
             if this.total_quality_array is not None:
                 if other.total_quality_array is not None:
-                    this.total_quality_array[
-                        np.ix_(freqs_t2o, times_t2o, jones_t2o)
-                    ] = other.total_quality_array
+                    this.total_quality_array[np.ix_(*this_inds[1:])] = (
+                        other.total_quality_array[np.ix_(*other_inds[1:])]
+                    )
 
             # Fix ordering
             ant_axis_num = 0
-- 
2.43.0


From 608a0a646be61b860f79ad1e67fcd5ef183ae71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 57/66] fix: combining UVCal objects in time carries
 scan_number_array along

---
 src/pyuvdata/uvcal/uvcal.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index c2f2e03..b7c4b67 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3113,6 +3113,12 @@ class UVCal(UVBase):
                 this.ref_antenna_array = np.concatenate(
                     [this.ref_antenna_array, other.ref_antenna_array[tnew_inds]]
                 )
+            if this.scan_number_array is None or other.scan_number_array is None:
+                this.scan_number_array = None
+            else:
+                this.scan_number_array = np.concatenate(
+                    [this.scan_number_array, other.scan_number_array[tnew_inds]]
+                )
             if this.time_range is not None:
                 t_order = np.argsort(this.time_range[:, 0])
             else:
@@ -3333,6 +3339,8 @@ class UVCal(UVBase):
                 this.phase_center_id_array = this.phase_center_id_array[t_order]
             if self.ref_antenna_array is not None:
                 this.ref_antenna_array = this.ref_antenna_array[t_order]
+            if this.scan_number_array is not None:
+                this.scan_number_array = this.scan_number_array[t_order]
         if len(jnew_inds) > 0:
             this.jones_array = this.jones_array[j_order]
 
@@ -3803,6 +3811,12 @@ class UVCal(UVBase):
                     [this.ref_antenna_array] + [obj.ref_antenna_array for obj in other],
                     axis=0,
                 )
+            if any(obj.scan_number_array is None for obj in [this, *other]):
+                this.scan_number_array = None
+            else:
+                this.scan_number_array = np.concatenate(
+                    [this.scan_number_array] + [obj.scan_number_array for obj in other]
+                )
             axis_num = 2
         elif axis == "jones":
             this.Njones = sum([this.Njones] + [obj.Njones for obj in other])
-- 
2.43.0


From d404ef0008310d01346b686599846c4bbc3632c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 58/66] fix: UVCal.__add__ accepts objects that share time
 ranges

---
 src/pyuvdata/uvcal/uvcal.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index b7c4b67..8c824d6 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -2719,8 +2719,11 @@ class UVCal(UVBase):
         )
 
         if this.time_range is not None:
+            # time ranges that are the same on both objects are the same entry
             if utils.tools._check_range_overlap(
-                np.concatenate((this.time_range, other.time_range), axis=0)
+                np.unique(
+                    np.concatenate((this.time_range, other.time_range), axis=0), axis=0
+                )
             ):
                 raise ValueError("A time_range overlaps in the two objects.")
             both_times, this_times_ind, other_times_ind = np.intersect1d(
@@ -2765,10 +2768,10 @@ class UVCal(UVBase):
             if len(both_times) > 0:
                 if len(both_freq) > 0:
                     if len(both_ants) > 0:
-                        raise ValueError(
-                            "These objects have overlapping data and"
-                            " cannot be combined."
-                        )
+                        msg = "These objects have overlapping data and"
+                        if this.time_range is not None:
+                            msg = "A time_range overlaps in the two objects. " + msg
+                        raise ValueError(msg + " cannot be combined.")
 
         # First, handle the internal source catalogs, since merging them is kind of a
         # weird, one-off process (i.e., nothing is cat'd across a particular axis)
-- 
2.43.0


From a4fc8d643b592763d26c4bddaa947bde80dbc926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:20 +0000
Subject: [PATCH 59/66] fix: UVCal.__add__ pads total_quality_array when only
 one object has quality arrays

---
 src/pyuvdata/uvcal/uvcal.py | 43 ++++++++-----------------------------
 1 file changed, 9 insertions(+), 34 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 8c824d6..75f3e75 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -2931,11 +2931,6 @@ class UVCal(UVBase):
 
         # Initialize tqa variables
         can_combine_tqa = True
-        if this.cal_type == "delay":
-            Nf_tqa = 1
-        else:
-            Nf_tqa = this.Nfreqs
-
         if (
             not self.metadata_only
             and this.quality_array is None
@@ -2944,6 +2939,14 @@ class UVCal(UVBase):
             this.quality_array = np.zeros(
                 this._quality_array.expected_shape(this), dtype=float
             )
+        if (
+            not self.metadata_only
+            and this.total_quality_array is None
+            and other.total_quality_array is not None
+        ):
+            this.total_quality_array = np.zeros(
+                this._total_quality_array.expected_shape(this), dtype=float
+            )
 
         # Pad out self to accommodate new data
         ant_order = None
@@ -3081,14 +3084,6 @@ class UVCal(UVBase):
                     this.total_quality_array = np.concatenate(
                         [this.total_quality_array, zero_pad], axis=0
                     )
-                elif other.total_quality_array is not None and can_combine_tqa:
-                    zero_pad = np.zeros((len(fnew_inds), this.Ntimes, this.Njones))
-                    this.total_quality_array = np.zeros(
-                        (Nf_tqa, this.Ntimes, this.Njones)
-                    )
-                    this.total_quality_array = np.concatenate(
-                        [this.total_quality_array, zero_pad], axis=0
-                    )
 
         t_order = None
         if len(tnew_inds) > 0:
@@ -3166,17 +3161,7 @@ class UVCal(UVBase):
 
                 if this.total_quality_array is not None and can_combine_tqa:
                     zero_pad = np.zeros(
-                        (this.quality_array.shape[1], len(tnew_inds), this.Njones)
-                    )
-                    this.total_quality_array = np.concatenate(
-                        [this.total_quality_array, zero_pad], axis=1
-                    )
-                elif other.total_quality_array is not None and can_combine_tqa:
-                    zero_pad = np.zeros(
-                        (this.quality_array.shape[1], len(tnew_inds), this.Njones)
-                    )
-                    this.total_quality_array = np.zeros(
-                        (Nf_tqa, this.Ntimes, this.Njones)
+                        (data_array_shape[1], len(tnew_inds), this.Njones)
                     )
                     this.total_quality_array = np.concatenate(
                         [this.total_quality_array, zero_pad], axis=1
@@ -3229,16 +3214,6 @@ class UVCal(UVBase):
                     this.total_quality_array = np.concatenate(
                         [this.total_quality_array, zero_pad], axis=2
                     )
-                elif other.total_quality_array is not None and can_combine_tqa:
-                    zero_pad = np.zeros(
-                        (data_array_shape[1], data_array_shape[2], len(jnew_inds))
-                    )
-                    this.total_quality_array = np.zeros(
-                        (Nf_tqa, this.Ntimes, this.Njones)
-                    )
-                    this.total_quality_array = np.concatenate(
-                        [this.total_quality_array, zero_pad], axis=2
-                    )
 
         # Now populate the data
         if not self.metadata_only:
-- 
2.43.0


From 04106c91a7c574bc56da5666766b610dbaa6b319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:20 +0000
Subject: [PATCH 60/66] fix: UVCal.fast_concat keeps phase center ids
 consistent for several objects and leaves them unchanged

---
 src/pyuvdata/uvcal/uvcal.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 75f3e75..713e09e 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3663,16 +3663,21 @@ class UVCal(UVBase):
                     warnings.warn(msg)
 
         # update the phase_center_catalog to make them consistent across objects
-        # Doing this as a binary tree merge
-        # The left object in each loop will have its phase center IDs updated.
+        # Use copies of the metadata of the other objects so that those objects are
+        # not changed.
+        other_meta = list(other)
         if this.phase_center_catalog is not None:
-            uv_list = [this] + other
-            while len(uv_list) > 1:
-                for uv1, uv2 in zip(uv_list[0::2], uv_list[1::2]):
-                    uv1._consolidate_phase_center_catalogs(
-                        other=uv2, ignore_name=ignore_name
-                    )
-                uv_list = uv_list[0::2]
+            other_meta = [obj.copy(metadata_only=True) for obj in other]
+            for obj in other_meta:
+                this._consolidate_phase_center_catalogs(
+                    other=obj, ignore_name=ignore_name
+                )
+            # Now all the phase centers are merged into this, but merging the later
+            # objects can have changed the IDs used for the earlier ones.
+            for obj in other_meta:
+                obj._consolidate_phase_center_catalogs(
+                    reference_catalog=this.phase_center_catalog, ignore_name=ignore_name
+                )
 
         total_quality_exists = [this.total_quality_array is not None] + [
             obj.total_quality_array is not None for obj in other
@@ -3780,7 +3785,7 @@ class UVCal(UVBase):
                 this.phase_center_id_array = np.concatenate(
                     (
                         [this.phase_center_id_array]
-                        + [obj.phase_center_id_array for obj in other]
+                        + [obj.phase_center_id_array for obj in other_meta]
                     ),
                     axis=0,
                 )
-- 
2.43.0


From 352d42650b42a5e86d3aeefdc6fa2bdd2a77b5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:23 +0000
Subject: [PATCH 61/66] fix: UVBeam.__add__ keeps beam values with their labels
 when the inputs are not sorted

---
 src/pyuvdata/uvbeam/uvbeam.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 65b34ff..73d5fe3 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -23,6 +23,12 @@ from . import _uvbeam, initializers
 __all__ = ["UVBeam"]
 
 
+def _match_inds(values, other_values):
+    """Get the index in `values` of each of the entries of `other_values`."""
+    order = np.argsort(values)
+    return order[np.searchsorted(values, other_values, sorter=order)]
+
+
 class UVBeam(UVBase):
     """
     A class for defining a radio telescope antenna beam.
@@ -2771,9 +2777,7 @@ class UVBeam(UVBase):
         # Now populate the data
         if this.beam_type == "power":
             this.Npols = this.polarization_array.shape[0]
-            pol_t2o = np.nonzero(
-                np.isin(this.polarization_array, other.polarization_array)
-            )[0]
+            pol_t2o = _match_inds(this.polarization_array, other.polarization_array)
 
             if len(pnew_inds) > 0:
                 # if this does not have cross pols but other does promote to complex
@@ -2789,13 +2793,13 @@ class UVBeam(UVBase):
                     this.data_array = np.asarray(this.data_array, dtype=dtype_use)
         else:
             this.Nfeeds = this.feed_array.shape[0]
-            pol_t2o = np.nonzero(np.isin(this.feed_array, other.feed_array))[0]
+            pol_t2o = _match_inds(this.feed_array, other.feed_array)
 
-        freq_t2o = np.nonzero(np.isin(this.freq_array, other.freq_array))[0]
+        freq_t2o = _match_inds(this.freq_array, other.freq_array)
 
         if this.pixel_coordinate_system == "healpix":
             this.Npixels = this.pixel_array.shape[0]
-            pix_t2o = np.nonzero(np.isin(this.pixel_array, other.pixel_array))[0]
+            pix_t2o = _match_inds(this.pixel_array, other.pixel_array)
             this.data_array[
                 np.ix_(np.arange(this.Naxes_vec), pol_t2o, freq_t2o, pix_t2o)
             ] = other.data_array
@@ -2806,8 +2810,8 @@ class UVBeam(UVBase):
         else:
             this.Naxes1 = this.axis1_array.shape[0]
             this.Naxes2 = this.axis2_array.shape[0]
-            ax1_t2o = np.nonzero(np.isin(this.axis1_array, other.axis1_array))[0]
-            ax2_t2o = np.nonzero(np.isin(this.axis2_array, other.axis2_array))[0]
+            ax1_t2o = _match_inds(this.axis1_array, other.axis1_array)
+            ax2_t2o = _match_inds(this.axis2_array, other.axis2_array)
             this.data_array[
                 np.ix_(np.arange(this.Naxes_vec), pol_t2o, freq_t2o, ax2_t2o, ax1_t2o)
             ] = other.data_array
-- 
2.43.0


From 796b1f6364f977a19d88d3aae3d99ddb10af7705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:52 +0000
Subject: [PATCH 62/66] fix: UVFlag.__add__ counts channels at the same
 frequency in different windows

---
 src/pyuvdata/uvflag/uvflag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 525ff3d..6591842 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -2128,7 +2128,7 @@ class UVFlag(UVBase):
                     this.freq_array.size, this.spw_array[0], dtype=int
                 )
 
-            this.Nfreqs = np.unique(this.freq_array.flatten()).size
+            this.Nfreqs = this.freq_array.size
 
         elif axis in ["polarization", "pol", "jones"]:
             if this.pol_collapsed:
-- 
2.43.0


From 58af13a87e340399a7db75f89132153b4918ac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:43 +0000
Subject: [PATCH 63/66] fix: selecting UVCal objects by LST handles LST ranges
 that wrap through zero

---
 src/pyuvdata/utils/times.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/pyuvdata/utils/times.py b/src/pyuvdata/utils/times.py
index b5d6d39..28cb7ef 100644
--- a/src/pyuvdata/utils/times.py
+++ b/src/pyuvdata/utils/times.py
@@ -456,17 +456,15 @@ def _select_times_helper(
 
         if obj_lst_range is not None:
             for lst in lsts:
+                after_start = obj_lst_range[:, 0] <= lst
+                before_end = obj_lst_range[:, 1] >= lst
                 lst_ind = np.nonzero(
-                    np.logical_and(
-                        (obj_lst_range[:, 0] <= lst), (obj_lst_range[:, 1] >= lst)
+                    np.where(
+                        lst_range_wrap,
+                        after_start | before_end,
+                        after_start & before_end,
                     )
                 )[0]
-                if lst_ind.size == 0 and np.any(lst_range_wrap):
-                    for lr_ind in np.nonzero(lst_range_wrap)[0]:
-                        if (obj_lst_range[lr_ind, 0] <= lst and lst <= 2 * np.pi) or (
-                            lst >= 0 and lst <= obj_lst_range[lr_ind, 1]
-                        ):
-                            lst_ind = np.array([lr_ind])
                 if lst_ind.size > 0:
                     time_inds = np.append(time_inds, lst_ind)
                 else:
@@ -497,12 +495,15 @@ def _select_times_helper(
             )
         if obj_lst_range is not None:
             for lind, lrange in enumerate(obj_lst_range):
-                if not lst_range_wrap[lind] and lst_range[0] < lst_range[1]:
+                if not lst_range_wrap[lind] and lst_range[0] <= lst_range[1]:
                     if _check_range_overlap(np.stack((lrange, lst_range), axis=0)):
                         time_inds = np.append(time_inds, lind)
                 else:
-                    if (lst_range[0] >= lrange[0] and lst_range[0] <= 2 * np.pi) or (
-                        lst_range[1] <= lrange[1] and lst_range[1] >= 0
+                    # at least one of the two ranges wraps around zero
+                    if (
+                        (lst_range_wrap[lind] and lst_range[0] > lst_range[1])
+                        or lst_range[0] <= lrange[1]
+                        or lst_range[1] >= lrange[0]
                     ):
                         time_inds = np.append(time_inds, lind)
             attr_str = "lst_range"
-- 
2.43.0


From 2380a37b4342c969a3d0b3af2a59804ddc6e72fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:43 +0000
Subject: [PATCH 64/66] fix: objects created from polarization names get
 integer arrays and honour the orientation

---
 src/pyuvdata/uvbeam/initializers.py | 4 +++-
 src/pyuvdata/uvcal/initializers.py  | 4 ++--
 src/pyuvdata/uvdata/initializers.py | 6 ++++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pyuvdata/uvbeam/initializers.py b/src/pyuvdata/uvbeam/initializers.py
index 7199406..8f14446 100644
--- a/src/pyuvdata/uvbeam/initializers.py
+++ b/src/pyuvdata/uvbeam/initializers.py
@@ -168,7 +168,9 @@ def new_uvbeam(
         uvb.beam_type = "power"
         polarization_array = np.asarray(polarization_array)
         if polarization_array.dtype.kind != "i":
-            polarization_array = np.asarray(utils.polstr2num(polarization_array))
+            polarization_array = np.asarray(
+                utils.polstr2num(polarization_array, x_orientation=x_orientation)
+            )
         uvb.polarization_array = polarization_array
 
         uvb.Npols = uvb.polarization_array.size
diff --git a/src/pyuvdata/uvcal/initializers.py b/src/pyuvdata/uvcal/initializers.py
index 338b4f6..d970e71 100644
--- a/src/pyuvdata/uvcal/initializers.py
+++ b/src/pyuvdata/uvcal/initializers.py
@@ -301,8 +301,8 @@ def new_uvcal(
     else:
         jones_array = np.array(jones_array)
         if jones_array.dtype.kind != "i":
-            jones_array = utils.jstr2num(
-                jones_array, x_orientation=telescope.x_orientation
+            jones_array = np.asarray(
+                utils.jstr2num(jones_array, x_orientation=telescope.x_orientation)
             )
 
     history += (
diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index dcc4ec9..d640063 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -574,8 +574,10 @@ def new_uvdata(
 
     polarization_array = np.array(polarization_array)
     if polarization_array.dtype.kind != "i":
-        polarization_array = utils.polstr2num(
-            polarization_array, x_orientation=x_orientation
+        if x_orientation is None:
+            x_orientation = telescope.x_orientation
+        polarization_array = np.asarray(
+            utils.polstr2num(polarization_array, x_orientation=x_orientation)
         )
 
     if vis_units not in ["Jy", "K str", "uncalib"]:
-- 
2.43.0


From a8cc6823dae057c62e384d9476a5f0156e5ddaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:43 +0000
Subject: [PATCH 65/66] fix: phase centers whose ephemeris times differ by days
 are not the same phase center

---
 src/pyuvdata/utils/phase_center_catalog.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/phase_center_catalog.py b/src/pyuvdata/utils/phase_center_catalog.py
index 0759451..0e6ad70 100644
--- a/src/pyuvdata/utils/phase_center_catalog.py
+++ b/src/pyuvdata/utils/phase_center_catalog.py
@@ -112,6 +112,8 @@ def look_in_catalog(
     # 1 marcsec tols
     radian_tols = (0, RADIAN_TOL)
     default_tols = (1e-5, 1e-8)
+    # 1 ms tols, a relative tolerance would be weeks for Julian dates
+    time_tols = (0, 1e-3 / (60.0 * 60.0 * 24.0))
     match_id = None
     match_diffs = 99999
 
@@ -155,7 +157,7 @@ def look_in_catalog(
         "cat_lat": radian_tols,
         "cat_frame": None,
         "cat_epoch": None,
-        "cat_times": default_tols,
+        "cat_times": time_tols,
         "cat_pm_ra": default_tols,
         "cat_pm_dec": default_tols,
         "cat_dist": default_tols,
-- 
2.43.0


From 5d2291d806bce5960fd33d05d9254243980feb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:43 +0000
Subject: [PATCH 66/66] fix: comparing an array parameter with a quantity
 parameter returns False instead of raising

---
 src/pyuvdata/parameter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyuvdata/parameter.py b/src/pyuvdata/parameter.py
index cd06a49..a098ef4 100644
--- a/src/pyuvdata/parameter.py
+++ b/src/pyuvdata/parameter.py
@@ -470,6 +470,12 @@ class UVParameter:
                             "values are not close"
                         )
                     return False
+            elif isinstance(other.value, units.Quantity):
+                if not silent:
+                    print(
+                        f"{self.name} parameter value is not a Quantity, but other is."
+                    )
+                return False
             else:
                 # check to see if strict types are used
                 if self.strict_type:
-- 
2.43.0

