From 950483b7f7efc1b1fffbc58b11e7e86024b569cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 01/57] fix: nearest_arrivals handles single trigger,
 coincident single trigger and empty pulse list

With exactly one external trigger the delay until the trigger was stored in a
misspelt local and lost, and a pulse coincident with the trigger was treated
differently from the general case.  With no pulses a single array was returned
instead of a pair.
---
 mass/core/analysis_algorithms.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 7379ab4..36f1567 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -693,7 +693,7 @@ def nearest_arrivals(long long[:] pulse_timestamps, long long[:] external_trigge
     num_triggers = external_trigger_timestamps.shape[0]
 
     if num_pulses < 1:
-        return np.array([], dtype=np.int64)
+        return np.array([], dtype=np.int64), np.array([], dtype=np.int64)
 
     delay_from_last_trigger = np.zeros_like(pulse_timestamps, dtype=np.int64)
     delay_until_next_trigger = np.zeros_like(pulse_timestamps, dtype=np.int64)
@@ -744,12 +744,12 @@ def nearest_arrivals(long long[:] pulse_timestamps, long long[:] external_trigge
 
         for i in range(num_pulses):
             pt = pulse_timestamps[i]
-            if pt > a:
+            if pt >= a:
                 delay_from_last_trigger[i] = pt - a
                 delay_until_next_trigger[i] = max_value
             else:
                 delay_from_last_trigger[i] = max_value
-                dealay_until_next_trigger = a - pt
+                delay_until_next_trigger[i] = a - pt
     else:
         for i in range(num_pulses):
             delay_from_last_trigger[i] = max_value
-- 
2.43.0


From 2ae3cad1f7d8eaa13cd18bca15844cfb64ffe9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:52 +0000
Subject: [PATCH 02/57] fix: OFF external-trigger delays in seconds use the
 subframe period, read from the correct header key

---
 mass/off/channels.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 5b4dcb1..f37e194 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -862,7 +862,7 @@ class Channel(CorG):  # noqa: PLR0904
     @property
     def subframeDivisions(self):
         hdr = self.offFile.header["ReadoutInfo"]
-        return hdr.get("SubframeDivsions", hdr["NumberOfRows"])
+        return hdr.get("SubframeDivisions", hdr["NumberOfRows"])
 
     @property
     def subframePeriodSeconds(self):
@@ -877,17 +877,17 @@ class Channel(CorG):  # noqa: PLR0904
     def _calcExternalTriggerTiming(self, external_trigger_subframe_count, after_last, until_next, from_nearest):
         subframes_after_last_external_trigger, subframes_until_next_external_trigger = \
             mass.core.analysis_algorithms.nearest_arrivals(self.subframecount, external_trigger_subframe_count)
-        rowPeriodSeconds = self.rowPeriodSeconds
+        subframePeriodSeconds = self.subframePeriodSeconds
         if after_last:
             self.subframes_after_last_external_trigger = subframes_after_last_external_trigger
-            self.seconds_after_last_external_trigger = subframes_after_last_external_trigger * rowPeriodSeconds
+            self.seconds_after_last_external_trigger = subframes_after_last_external_trigger * subframePeriodSeconds
         if until_next:
             self.subframes_until_next_external_trigger = subframes_until_next_external_trigger
-            self.seconds_until_next_external_trigger = subframes_until_next_external_trigger * rowPeriodSeconds
+            self.seconds_until_next_external_trigger = subframes_until_next_external_trigger * subframePeriodSeconds
         if from_nearest:
             self.subframes_from_nearest_external_trigger = np.fmin(subframes_after_last_external_trigger,
                                                                    subframes_until_next_external_trigger)
-            self.seconds_from_nearest_external_trigger = self.subframes_from_nearest_external_trigger * rowPeriodSeconds
+            self.seconds_from_nearest_external_trigger = self.subframes_from_nearest_external_trigger * subframePeriodSeconds
 
 
 def normalize(x):
-- 
2.43.0


From 61e82934d3362d042611a3ec99feaebaedbe7e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 03/57] fix: TESGroup.calc_external_trigger_timing reads the
 triggers of the group

---
 mass/core/channel_group.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 222227a..fcf4c48 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -623,8 +623,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         return self.external_trigger_subframe_count[:] / float(self.subframe_divisions) * self.timebase
 
     def calc_external_trigger_timing(self, forceNew=False):
-        ds = self.first_good_dataset
-        external_trigger_subframe_count = np.asarray(ds.external_trigger_subframe_count[:], dtype=np.int64)
+        external_trigger_subframe_count = np.asarray(self.external_trigger_subframe_count[:], dtype=np.int64)
 
         for ds in self:
             try:
-- 
2.43.0


From a685490468b4a0142a68ce85dfb4fc8826d44eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 04/57] fix: registering the same boolean cut name twice in one
 call no longer takes two bits

---
 mass/core/cut.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index 95c2991..23a5476 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -192,10 +192,11 @@ class CutFieldMixin:
         boolean_fields = self.boolean_cut_desc
         cut_used_bit_flags = self.cut_used_bit_flags
 
-        new_fields = [n.encode() for n in names if n.encode() not in boolean_fields["name"]]
-
         uint32_one = np.uint32(1)
-        for new_field in new_fields:
+        for name in names:
+            new_field = name.encode()
+            if new_field in boolean_fields["name"]:
+                continue
             available_bit_pos = self.__lowest_available_cut_bit(cut_used_bit_flags)
             boolean_fields[available_bit_pos] = (new_field, uint32_one << available_bit_pos)
             cut_used_bit_flags |= (uint32_one << available_bit_pos)
-- 
2.43.0


From fc56b95e22d1eb22e704026ba34ed2f960401a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 05/57] fix: unregistering a cut field erases its marks, so a
 later field does not inherit them

---
 mass/core/cut.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index 23a5476..217330d 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -182,6 +182,18 @@ class CutFieldMixin:
 
         raise ValueError("No available cut bit.")
 
+    def __erase_cut_bits(self, bit_mask):
+        """Erase the given bits for all pulses of all datasets, so that a field registered later
+        doesn't inherit marks made for a field that once owned these bits.
+
+        Args:
+            bit_mask (np.uint32): the bits to erase.
+        """
+        for ds in getattr(self, "datasets", ()):
+            cuts = getattr(ds, "cuts", None)
+            if cuts is not None:
+                cuts._mask[...] &= ~bit_mask
+
     def register_boolean_cut_fields(self, *names):
         """Register one or more boolean cut field(s).
         If any of given boolean cut fields already exist, it silently ignore.
@@ -230,6 +242,7 @@ class CutFieldMixin:
 
         self.boolean_cut_desc = boolean_fields
         self.cut_used_bit_flags &= ~clear_mask
+        self.__erase_cut_bits(clear_mask)
 
     def register_categorical_cut_field(self, name, categories, default="uncategorized"):
         """Register one categorical cut field.
@@ -315,6 +328,7 @@ class CutFieldMixin:
         self.categorical_cut_desc = new_categorical_fields
         self.cut_category_list = new_category_list
         self.cut_used_bit_flags &= ~clear_mask
+        self.__erase_cut_bits(clear_mask)
 
 
 class Cuts:
-- 
2.43.0


From bb1d08729987cc3d592167700c39c5753eeb5c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:58 +0000
Subject: [PATCH 06/57] fix: Qscale returns the exact order statistic in double
 precision, also with tied values

---
 mass/mathstat/robust.pyx | 103 ++++++++++++++++-----------------------
 1 file changed, 41 insertions(+), 62 deletions(-)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index 9ad908b..09f0d41 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -311,10 +311,7 @@ def Qscale(x, sort_inplace=False):
         dist.sort()
         return dist[target_k] * prefactor
 
-    q, npasses = _Qscale_subroutine(x, n, target_k)
-
-    if npasses > n:
-        raise RuntimeError("Qscale tried %d distances, which is too many" % npasses)
+    q, _ = _Qscale_subroutine(x, n, target_k)
     return q * prefactor
 
 
@@ -375,7 +372,7 @@ def _choose_trial_val(long long[:] left, long long[:] right, double[:] x, int n)
     cdef Py_ssize_t i
     cdef int chosen_row, chosen_col, ctr_index
 
-    cdef float trial_val
+    cdef double trial_val
     cdef double[:] weights
     cdef double[:] row_median
 
@@ -407,86 +404,68 @@ def _choose_trial_val(long long[:] left, long long[:] right, double[:] x, int n)
 @cython.embedsignature(True)
 @cython.boundscheck(False)  # turn off bounds-checking for entire function
 def _Qscale_subroutine(double[:] x, unsigned int n, unsigned int target_k):
-    cdef unsigned int trial_q_row = 0, trial_q_col = 0
     cdef Py_ssize_t i, counter
     cdef double trial_distance = 0.0
-    cdef long long candidates_below_trial_dist
+    cdef long long n_less, n_not_greater
 
     # Keep track of which candidates on each ROW are still in the running.
     # These limits are of length (n-1) because the lowest row has no upper-triangle elements.
     # These mean that element A_ij = xj-xi is in the running if and only if  left(i) <= j <= right(i).
-    cdef long long[:] trial_column
     cdef long long[:] left
     cdef long long[:] right
-    cdef double[:] per_row_value
+    # In each row, the first column NOT less than the trial distance, and the first one greater than it.
+    cdef long long[:] first_not_less
+    cdef long long[:] first_greater
     cdef long ia, ib, imiddle
 
-    trial_column = np.zeros(n-1, dtype=np.int64)
-    left = np.zeros(n-1, dtype=np.int64)
+    left = np.arange(1, n, dtype=np.int64)
     right = np.zeros(n-1, dtype=np.int64)
+    first_not_less = np.zeros(n-1, dtype=np.int64)
+    first_greater = np.zeros(n-1, dtype=np.int64)
 
     for i in range(n-1):
         right[i] = n-1
 
-    per_row_value = np.zeros(n-1, dtype=np.float64)
-
     # In this loop, we close in on the Q that we seek by doing a bisection search of each row,
     # with left and right representing the smallest and largest column #s still in the running.
-    for counter in range(n+10):
-        trial_distance, trial_q_row, trial_q_col = _choose_trial_val(left, right, x, n)
+    # Every pass removes at least the trial distance itself, and normally a quarter of the candidates.
+    for counter in range(n*n+10):
+        trial_distance, _, _ = _choose_trial_val(left, right, x, n)
+
+        # Count the distances less than the trial distance, and those not greater than it. (They differ by
+        # more than 1 if there are ties.) Compare the differences x[j]-x[i] themselves: rounding errors can
+        # make (trial_distance + x[i]) != x[j] even when trial distance was defined as (x[j]-x[i]).
+        n_less = 0
+        n_not_greater = 0
         for i in range(n-1):
-            per_row_value[i] = trial_distance + x[i]
-
-        # In each row i, find the highest index trial_column such that x[tc]-x[i] < trial_distance
-        # If such an index is out of the candidate range, then let it be left-1 or right.
-        # We must be extremely careful in this loop, because rounding errors can make
-        # (trial_distance + x[i]) != x[j] even when trial distance was defined as (x[j]-x[i])
-        # So instead we have the choose_trial_val tell us the (i,j) pair being considered
-        # and test for it.
-
-        # trial_column tracks the column in each row which is the highest column strictly less than
-        # the trial distance.
-        for i in range(per_row_value.shape[0]):
-            trial_val = per_row_value[i]
-
-            # Test for if this is the row containing the trial Q-value.  If so, column is known.
-            # Use this to avoid comparing exact equality of floats on the trial Q's (row,col).
-            if i == trial_q_row:
-                trial_column[i] = trial_q_col-1
-                continue
-
             ia = left[i]
-            ib = right[i]
-            if ia > ib or x[ia] >= trial_val:
-                trial_column[i] = ia-1
-                continue
-            if x[ib] <= trial_val:
-                trial_column[i] = ib
-                continue
-            while ib-ia > 1:
-                imiddle = (ib+ia) // 2
-                if x[imiddle] < trial_val:
-                    ia = imiddle
-                elif x[imiddle] > trial_val:
+            ib = right[i]+1
+            while ia < ib:
+                imiddle = (ia+ib) // 2
+                if x[imiddle]-x[i] < trial_distance:
+                    ia = imiddle+1
+                else:
                     ib = imiddle
+            first_not_less[i] = ia
+            n_less += ia-(i+1)
+
+            ib = right[i]+1
+            while ia < ib:
+                imiddle = (ia+ib) // 2
+                if x[imiddle]-x[i] <= trial_distance:
+                    ia = imiddle+1
                 else:
-                    ia = imiddle - 1
                     ib = imiddle
-                    break
-            trial_column[i] = ia
-
-        candidates_below_trial_dist = np.sum(trial_column) - ((n-2)*(n-1))/2
+            first_greater[i] = ia
+            n_not_greater += ia-(i+1)
 
-        if candidates_below_trial_dist == target_k:
-            return trial_distance, counter
-        elif candidates_below_trial_dist > target_k:
+        if target_k < n_less:
             for i in range(n-1):
-                right[i] = trial_column[i]
-                if right[i] >= n:
-                    right[i] = n-1
-        else:
+                right[i] = first_not_less[i]-1
+        elif target_k >= n_not_greater:
             for i in range(n-1):
-                left[i] = trial_column[i] + 1
-            left[trial_q_row] += 1
+                left[i] = first_greater[i]
+        else:
+            return trial_distance, counter
 
-    return trial_distance, counter
+    raise RuntimeError("Qscale tried %d distances, which is too many" % counter)
-- 
2.43.0


From 3d0845bfb2a423e6e832108b813202047eb26eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:58 +0000
Subject: [PATCH 07/57] fix: _merge_orderedlists with an empty first list
 reports that nothing came from it

---
 mass/mathstat/entropy.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/entropy.pyx b/mass/mathstat/entropy.pyx
index d776d96..0c386da 100644
--- a/mass/mathstat/entropy.pyx
+++ b/mass/mathstat/entropy.pyx
@@ -154,7 +154,7 @@ cpdef _merge_orderedlists(x1_in, x2_in):
             raise ValueError("_merge_orderedlists(x,y) requires at least one list of positive length.")
         return x1, np.ones(N1, dtype=bool)
     elif N1 == 0:
-        return x2, np.ones(N2, dtype=bool)
+        return x2, np.zeros(N2, dtype=bool)
 
     out = np.zeros(N1+N2, dtype=DTYPE)
     wasfirst = np.zeros(N1+N2, dtype=bool)
-- 
2.43.0


From d78742f8ac4cb19464fcc932567179f74bf2a324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:06 +0000
Subject: [PATCH 08/57] fix: weighted high_median counts the trial element when
 the upper bound moves down to it

---
 mass/mathstat/robust.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index 09f0d41..f02a189 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -352,7 +352,7 @@ def _high_median(long long[:] sort_idx, double[:] weights, int n):
             trial_right_weight += weights[sort_idx[i]]
 
         if left_weight + trial_left_weight > half_weight:  # j < itrial
-            right_weight += trial_right_weight
+            right_weight += trial_right_weight + weights[sort_idx[itrial]]
             imax = itrial
         elif right_weight + trial_right_weight >= half_weight:  # j > itrial
             left_weight += trial_left_weight
-- 
2.43.0


From cef65e614fa555bb91a83725e4139d32cd1f2a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:27 +0000
Subject: [PATCH 09/57] fix: ljh_sort_filenames_numerically works with an
 inclusion list and leaves the caller's list alone

---
 mass/core/ljh_util.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index a31ffea..9b245a5 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -175,13 +175,12 @@ def ljh_sort_filenames_numerically(fnames, inclusion_list=None):
         return None
 
     if inclusion_list is not None:
-        fnames = filter(lambda n: ljh_channum(n) in inclusion_list, fnames)
+        fnames = [n for n in fnames if ljh_channum(n) in inclusion_list]
 
     # Sort the results first by raw filename, then sort numerically by LJH channel number.
     # Because string sort and the builtin `sorted` are both stable, we ensure that the first
     # sort is used to break ties in channel number.
-    fnames.sort()
-    return sorted(fnames, key=ljh_channum)
+    return sorted(sorted(fnames), key=ljh_channum)
 
 
 def filename_glob_expand(pattern):
-- 
2.43.0


From 552a1d4b51e9c74f6480c533ff007f6dd58259ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:27 +0000
Subject: [PATCH 10/57] fix: remove_unpaired_channel_files removes every file
 of an invalid channel, not only one

---
 mass/core/ljh_util.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index 9b245a5..506573a 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -126,21 +126,17 @@ def remove_unpaired_channel_files(filenames1, filenames2, never_use=None, use_on
         return
     assert isinstance(filenames1, list)
 
-    # Now make a mapping of channel numbers to names.
-    names1 = {ljh_channum(f): f for f in filenames1}
-    cnum1 = set(names1.keys())
+    # Find all channel numbers in each list. (Several files might have the same channel number.)
+    cnum1 = {ljh_channum(f) for f in filenames1}
 
     # If second list is empty, then matching is not required or expected.
     # But _do_ continue, so we can apply `never_use` and `use_only` (issue 255).
     if filenames2 is None or len(filenames2) == 0:
         filenames2 = []
-        names2 = {}
-        cnum2 = set()
         valid_cnum = set(cnum1)  # Careful! Must be a copy, not identity
     else:
         assert isinstance(filenames2, list)
-        names2 = {ljh_channum(f): f for f in filenames2}
-        cnum2 = set(names2.keys())
+        cnum2 = {ljh_channum(f) for f in filenames2}
         valid_cnum = cnum1.intersection(cnum2)
 
     # Find the set of valid channel numbers.
@@ -149,11 +145,9 @@ def remove_unpaired_channel_files(filenames1, filenames2, never_use=None, use_on
     if use_only is not None:
         valid_cnum = valid_cnum.intersection(set(use_only))
 
-    # Remove invalid channel numbers
-    for c in (cnum1 - valid_cnum):
-        filenames1.remove(names1[c])
-    for c in (cnum2 - valid_cnum):
-        filenames2.remove(names2[c])
+    # Remove all files with invalid channel numbers
+    filenames1[:] = [f for f in filenames1 if ljh_channum(f) in valid_cnum]
+    filenames2[:] = [f for f in filenames2 if ljh_channum(f) in valid_cnum]
 
 
 def ljh_sort_filenames_numerically(fnames, inclusion_list=None):
-- 
2.43.0


From b34b5b420f54e484f310f018d1eab233905f25fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:27 +0000
Subject: [PATCH 11/57] fix: output_basename_from_ljh_fname raises ValueError,
 not a string, for a missing directory

---
 mass/core/ljh_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index 506573a..1c99d4d 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -85,7 +85,7 @@ def output_basename_from_ljh_fname(ljh):
     basename, _ = ljh_basename_channum(ljh)
     ljhdir, fname = path.split(basename)
     if not path.isdir(ljhdir):
-        raise (f"ValueError {ljhdir} is not valid directory")
+        raise ValueError(f"{ljhdir} is not valid directory")
     outputdir = path.join(ljhdir, "mass_output")
     if not path.isdir(outputdir):
         os.mkdir(outputdir)
-- 
2.43.0


From 28ceb1d77b65d797b71ea6a2fe40c909b1df1594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:32 +0000
Subject: [PATCH 12/57] fix: LJHFile channel number and default HDF5 name come
 from the last _chan marker of the file name

---
 mass/core/channel_group.py | 4 ++--
 mass/core/files.py         | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index fcf4c48..f78d8fb 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -35,8 +35,8 @@ def _generate_hdf5_filename(rawname):
 
     Takes /path/to/data_chan33.ljh --> /path/to/data_mass.hdf5
     """
-    fparts = re.split(r"_chan\d+", rawname)
-    prefix_path = fparts[0]
+    chan_matches = list(re.finditer(r"_chan\d+", rawname))
+    prefix_path = rawname[:chan_matches[-1].start()] if chan_matches else rawname
     if rawname.endswith("noi"):
         prefix_path += '_noise'
     return prefix_path + "_mass.hdf5"
diff --git a/mass/core/files.py b/mass/core/files.py
index e9f213d..64652e3 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -21,6 +21,7 @@ __all__ = [
 ]
 
 import os
+import re
 import logging
 import collections
 from deprecation import deprecated
@@ -202,7 +203,7 @@ class LJHFile(MicrocalFile):
         self.header_dict = header_dict
         self.header_size = header_size
         self.client = None
-        self.channum = int(filename.split("_chan")[1].split(".")[0])
+        self.channum = int(re.findall(r"_chan(\d+)", filename)[-1])
         self.sample_usec = None
         self.timestamp_offset = None
         self.row_number = 0
-- 
2.43.0


From 4dc29fb6f69c3928f5822b7db0faa1232e45eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:20 +0000
Subject: [PATCH 13/57] fix: nested use of ChannelGroup.includeBad (e.g.
 whyChanBad inside it) keeps the outer choice

---
 mass/off/channels.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index f37e194..eddef6d 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1130,6 +1130,7 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         else:
             self.experimentStateFile = experimentStateFile
         self._includeBad = False
+        self._includeBadStack = []
         self._channelClass = channelClass
         self.loadChannels()
         self._default_cut_recipe_name = self.firstGoodChannel()._default_cut_recipe_name
@@ -1295,10 +1296,11 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         return self
 
     def __enter__(self):
+        self._includeBadStack.append(self._includeBad)  # so that uses can be nested
         self._includeBad = self._includeBadDesired
 
     def __exit__(self, *args):
-        self._includeBad = False
+        self._includeBad = self._includeBadStack.pop()
         self._includeBadDesired = False
 
     def histsToHDF5(self, h5File, binEdges, attr="energy", cutRecipeName=None):
@@ -1544,6 +1546,7 @@ class ChannelGroupFromNpArrays(ChannelGroup):
         self.verbose = verbose
         self.experimentStateFile = experimentStateFile
         self._includeBad = False
+        self._includeBadStack = []
         for ds in channels:
             self[ds.channum] = ds
         self._default_cut_recipe_name = self.firstGoodChannel()._default_cut_recipe_name
-- 
2.43.0


From 9e0ea4e98bc0d7cb4e5d42cc7ccdade762721901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:20 +0000
Subject: [PATCH 14/57] fix: channels can be marked bad for a reason with
 non-ASCII characters

---
 mass/core/channel_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index f78d8fb..e65be3b 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -450,7 +450,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             self._bad_channums[channum] = new_comment
             LOG.warning('WARNING: Chan %s flagged bad because %s', channum, comment)
             self.hdf5_file[f"chan{channum}"].attrs['why_bad'] = \
-                np.asarray(new_comment, dtype=np.bytes_)
+                np.asarray([c.encode() for c in new_comment], dtype=np.bytes_)
 
     def set_all_chan_good(self):
         """Set all channels to be good."""
-- 
2.43.0


From 409fb7add541cf91e9038a2a8be440f68a4fce62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:20 +0000
Subject: [PATCH 15/57] fix: a noise-only TESGroup remembers its bad channels
 when it is opened again

---
 mass/core/channel_group.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index e65be3b..e28e69f 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -344,6 +344,10 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             noise_list.append(noise)
             dset_list.append(dset)
 
+            if 'why_bad' in hdf5_group.attrs:
+                self._bad_channums[dset.channum] = [comment.decode() for comment in
+                                                    hdf5_group.attrs['why_bad']]
+
             if self.n_segments == 0:
                 for attr in ("nSamples", "nPresamples", "timebase"):
                     self.__dict__[attr] = noise.__dict__[attr]
-- 
2.43.0


From 6919e49fa1d84809dc54e6afd687322c0ef3a407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:09 +0000
Subject: [PATCH 16/57] fix: LJH 2.1 times use the true frame period, not one
 truncated to whole nanoseconds

---
 mass/core/files.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index 64652e3..24a2b70 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -379,9 +379,10 @@ class LJHFile2_1(LJHFile):
         datatime_ns = NS_PER_4USEC_TICK * np.asarray(self._mm["internal_us"], dtype=np.int64)
         datatime_ns[:] += NS_PER_MSEC * np.asarray(self._mm["internal_ms"], dtype=np.int64)
 
-        NS_PER_FRAME = np.int64(self.timebase * 1e9)
+        # The frame period need not be a whole number of ns, so don't truncate it to one.
+        ns_per_frame = self.timebase * 1e9
         FOURPOINT = 3  # account for 4-point triggering algorithm
-        self.frame_count = (1 + FOURPOINT) + (datatime_ns - 1) // NS_PER_FRAME
+        self.frame_count = (1 + FOURPOINT) + np.floor((datatime_ns - 1) / ns_per_frame).astype(np.int64)
 
     @property
     def subframecount(self):
-- 
2.43.0


From 5c086895c0a1558d6def62d04888d5fb92a9a6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:09 +0000
Subject: [PATCH 17/57] fix: TESGroup.set_segment_size counts segments, not
 records per segment

---
 mass/core/channel_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index e28e69f..9f6d6f8 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1086,7 +1086,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         self.n_segments = 0
         for ds in self:
             ds.pulse_records.set_segment_size(seg_size)
-            self.n_segments = max(self.n_segments, ds.pulse_records.pulses_per_seg)
+            self.n_segments = max(self.n_segments, ds.pulse_records.n_segments)
         self.pulses_per_seg = self.first_good_dataset.pulse_records.pulses_per_seg
         for ds in self:
             assert ds.pulse_records.pulses_per_seg == self.pulses_per_seg
-- 
2.43.0


From 70808e73e8580fcd6a0084e99008c91c9566b927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:09 +0000
Subject: [PATCH 18/57] fix: LJHModify writes the header and each record's own
 count and time

---
 mass/core/ljh_modify.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index a57f88e..dfefac9 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -13,6 +13,12 @@ from mass.core.files import LJHFile, make_ljh_header
 from mass.core.utilities import InlineUpdater
 
 
+def _read_header_bytes(infile):
+    """Return the complete header of the open LJHFile `infile`, exactly as it is in the file."""
+    with open(infile.filename, "rb") as fp:
+        return fp.read(infile.header_size)
+
+
 def LJHModify(input_filename, output_filename, callback, overwrite=False):
     """Copy an LJH file `input_filename` to a new LJH file `output_filename`
     with the identical header, but with the raw data records transformed in-place
@@ -44,32 +50,19 @@ def LJHModify(input_filename, output_filename, callback, overwrite=False):
     infile = LJHFile.open(input_filename)
     with open(output_filename, "wb") as outfile:
         # Copy the header as a single string.
-        outfile.write("".join(infile.header_lines))
+        outfile.write(_read_header_bytes(infile))
 
         # For now, we are not modifying the times and row #s
         # If we wanted to, that would require a fancier callback, I guess.
 
         # Write the modified segdata (and the unmodified row count and timestamps).
         updater = InlineUpdater("LJHModify")
-        if Version(infile.version_str.decode()) >= Version("2.2.0"):
-            for i in range(infile.nPulses):
-                data = callback(infile.alldata[i])
-                x = np.zeros((1,), dtype=infile.dtype)
-                x["subframecount"] = infile.subframecount
-                x["posix_usec"] = infile.datatimes_float * 1e6
-                x["data"] = data
-                x.tofile(outfile)
-                if i % 100 == 0:
-                    updater.update(float(i + 1) / infile.nPulses)
-
-        else:
-            for i in range(infile.nPulses):
-                data = callback(infile.alldata[i])
-                x = np.zeros((1, 3 + infile.nSamples), dtype=np.uint16)
-                x[:, 3:] = data
-                x.tofile(outfile)
-                if i % 100 == 0:
-                    updater.update(float(i + 1) / infile.nPulses)
+        for i in range(infile.nPulses):
+            x = np.array(infile._mm[i:i + 1])
+            x["data"] = callback(infile.alldata[i])
+            x.tofile(outfile)
+            if i % 100 == 0:
+                updater.update(float(i + 1) / infile.nPulses)
 
         updater.update(1.0)
 
-- 
2.43.0


From e0b2a249b4c10422b0369e0f37a289c705368765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:09 +0000
Subject: [PATCH 19/57] fix: copied LJH files keep the sample period,
 presamples and subframe layout of the source

---
 mass/core/files.py      | 9 ++++++---
 mass/core/ljh_modify.py | 2 ++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index 24a2b70..d3716f1 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -273,7 +273,8 @@ class LJHFile(MicrocalFile):
         # So when there are 500 samples before the first non-trivial (triggered) data
         # sample, DASTARD will say nPresamples=500, but earlier clients will say
         # nPresamples=497 in the LJH file. Correct the latter here.
-        if b"DASTARD" not in self.client:
+        # (Headers made by MASS itself also hold the true value: see `make_ljh_header`.)
+        if b"DASTARD" not in self.client and not self.client.startswith(b"MASS-generated"):
             self.nPresamples += 3
 
         # Files cut short by a crash of the DAQ software (or whatever) will generate
@@ -446,7 +447,7 @@ def make_ljh_header(header_dict):
 
     Args:
         header_dict (dict): should contain at least the following keys:
-            asctime, timebase, nPresamples, nSamples
+            asctime, version_str, timebase, nPresamples, nSamples, subframe_divisions, subframe_offset
     """
     version_str = header_dict["version_str"]
     asctime = header_dict["asctime"]
@@ -471,7 +472,7 @@ def make_ljh_header(header_dict):
         "Digitizer: 1",
         "Master: Yes",
         "Bits: 16",
-        f"Timebase: {timebase:.4e}",
+        f"Timebase: {timebase}",
         "Number of samples per point: 1",
         f"Presamples: {nPresamples}",
         f"Total Samples: {nSamples}",
@@ -480,6 +481,8 @@ def make_ljh_header(header_dict):
         "Range: 0.500000",
         "Offset: -0.000122",
         "Inverted: No",
+        f"Subframe divisions: {header_dict['subframe_divisions']}",
+        f"Subframe offset: {header_dict['subframe_offset']}",
         "#End of Header",
         ""  # need this to get a newline at the end of the list
     ]
diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index dfefac9..08c8c1b 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -120,6 +120,8 @@ def ljh_copy_traces(src_name, dest_name, pulses, overwrite=False):
 
     if os.path.exists(dest_name) and not overwrite:
         raise OSError(f"The ljhfile '{dest_name}' exists and overwrite was not set to True")
+    if os.path.exists(dest_name) and os.path.samefile(src_name, dest_name):
+        raise ValueError(f"Input '{src_name}' and output '{dest_name}' are the same file, which is not allowed")
 
     src = LJHFile.open(src_name)
 
-- 
2.43.0


From 051402a82c41e9e1d7342bd8a63c722b6d3cbf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 20/57] fix: truncating and appending LJH files keep the header
 and every complete record

---
 mass/core/ljh_modify.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index 08c8c1b..f0ac49f 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -151,7 +151,11 @@ def ljh_append_traces(src_name, dest_name, pulses=None):
     src = LJHFile.open(src_name)
     if pulses is None:
         pulses = range(src.nPulses)
-    with open(dest_name, "ab") as dest_fp:
+    dest = LJHFile.open(dest_name)
+    with open(dest_name, "r+b") as dest_fp:
+        # Start right after the last complete record, in case a partial one follows it.
+        dest_fp.seek(dest.header_size + dest.nPulses * dest.pulse_size_bytes)
+        dest_fp.truncate()
         for i in pulses:
             helper_write_pulse(dest_fp, src, i)
 
@@ -195,12 +199,10 @@ def ljh_truncate(input_filename, output_filename, n_pulses=None, timestamp=None,
 
     with open(output_filename, "wb") as outfile:
         # write the header as a single string.
-        for (k, v) in infile.header_dict.items():
-            outfile.write(k + b": " + v + b"\r\n")
-        outfile.write(b"#End of Header\r\n")
+        outfile.write(_read_header_bytes(infile))
 
         # Write pulses. Stop reading segments from the original file as soon as possible.
-        if n_pulses is None:
+        if n_pulses is None or n_pulses > infile.nPulses:
             n_pulses = infile.nPulses
         for i in range(n_pulses):
             if (timestamp is not None and infile.datatimes_float[i] > timestamp):
-- 
2.43.0


From 4759d49342c498e07fbddbc135e691ef9f346518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 21/57] fix: a recipe can use the same ingredient for several
 arguments

---
 mass/off/util.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mass/off/util.py b/mass/off/util.py
index 0386be7..e2c703c 100644
--- a/mass/off/util.py
+++ b/mass/off/util.py
@@ -75,7 +75,7 @@ class RecipeBook:
                 assert ingredient in self.baseIngredients or ingredient in self.craftedIngredients
                 i2a[ingredient] = inspectedArgName
 
-        recipe = Recipe(f, i2a, inverse, recipeName, self.coefs_dtype)
+        recipe = Recipe(f, i2a, inverse, recipeName, self.coefs_dtype, ingredients)
         for ingredient in i2a:
             if ingredient in self.craftedIngredients:
                 recipe._setIngredientToRecipe(ingredient, self.craftedIngredients[ingredient])
@@ -171,7 +171,9 @@ class Recipe:
     reads to the off file.
     """
 
-    def __init__(self, f, i2a, inverse, name, coefs_dtype=None):
+    ingredients = None  # also the value for recipes pickled before this attribute existed
+
+    def __init__(self, f, i2a, inverse, name, coefs_dtype=None, ingredients=None):
         assert not isinstance(f, Recipe)
         self.f = f
         self.inverse = inverse
@@ -182,6 +184,8 @@ class Recipe:
         # "coefs"
         # it's a hardcoded hack
         self.coefs_dtype = coefs_dtype
+        # ingredient names in the order of the arguments of f (the keys of i2a, unless an ingredient is used more than once)
+        self.ingredients = list(i2a) if ingredients is None else list(ingredients)
 
     def _setIngredientToRecipe(self, ingredient, r):
         assert isinstance(r, Recipe)
@@ -190,7 +194,8 @@ class Recipe:
 
     def __call__(self, ingredientSource):
         args = []
-        for (k, v) in self.i2a.items():
+        for k in (self.i2a if self.ingredients is None else self.ingredients):
+            v = self.i2a[k]
             if isinstance(v, Recipe):
                 args.append(v(ingredientSource))
             elif k == "coefs":
-- 
2.43.0


From fd302113650e42a156daf3147e46199d5d2d5c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:24 +0000
Subject: [PATCH 22/57] fix: third derivative of a cubic spline divides by the
 knot spacing

(z_hi - z_lo)/dx is the derivative of the linear second derivative; the code
multiplied by dx.
---
 mass/mathstat/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 69c9d3c..a9c9185 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -172,7 +172,7 @@ class CubicSpline:
             elif der == 2:
                 result[interp] = a * self._y2[klo] + b * self._y2[khi]
             elif der == 3:
-                result[interp] = (-self._y2[klo] + self._y2[khi]) * dx
+                result[interp] = (-self._y2[klo] + self._y2[khi]) / dx
             elif der > 3:
                 result[interp] = .0
 
-- 
2.43.0


From 2db0941520ba1d8e702e7090ab440f4e502dff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:30 +0000
Subject: [PATCH 23/57] fix: sums and products of functions with numbers have a
 derivative

---
 mass/mathstat/derivative.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mass/mathstat/derivative.py b/mass/mathstat/derivative.py
index a338e3a..b23d9a1 100644
--- a/mass/mathstat/derivative.py
+++ b/mass/mathstat/derivative.py
@@ -47,6 +47,8 @@ class Function:
         return NotImplemented(">> is not implemented.")
 
     def __add__(self, other):
+        if isinstance(other, (int, float)):
+            other = ConstantFunction(other)
         return Summation(self, other)
 
     def __radd__(self, other):
@@ -63,6 +65,8 @@ class Function:
         raise NotImplementedError("- is not implemented.")
 
     def __mul__(self, other):
+        if isinstance(other, (int, float)):
+            other = ConstantFunction(other)
         return Multiplication(self, other)
 
     def __rmul__(self, other):
-- 
2.43.0


From 95c1fae1e4d9d0c8d3b4abeea3c7c06b8de242c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:30 +0000
Subject: [PATCH 24/57] fix: derivative of a smoothing spline function is that
 of the same curve

---
 mass/mathstat/interpolate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index a9c9185..28f7b39 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -30,6 +30,7 @@ NaturalBsplineBasis - A tool for expressing a spline basis using B-splines but
 Joe Fowler, NIST
 Created Feb 2014
 """
+import copy
 import numpy as np
 import scipy as sp
 from scipy.interpolate import splev
@@ -594,7 +595,10 @@ class SmoothingSplineFunction(SmoothingSpline, Function):
     def derivative(self, der=1):
         if self.der + der > 3:
             return ConstantFunction(0)
-        return SmoothingSplineFunction(self.x, self.y, self.dy, self.dx, der=self.der + der)
+        # Same curve, higher derivative. (Don't smooth again: self.x, self.dx are scaled.)
+        result = copy.copy(self)
+        result.der = self.der + der
+        return result
 
     def __call__(self, x, der=0):
         if self.der + der > 3:
-- 
2.43.0


From 15dbd5f9d9646178cef231b75c40d06e75a92a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:30 +0000
Subject: [PATCH 25/57] fix: OFF header length counts bytes, not characters

---
 mass/off/off.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/off/off.py b/mass/off/off.py
index b226a59..8bcf1b3 100644
--- a/mass/off/off.py
+++ b/mass/off/off.py
@@ -74,7 +74,8 @@ class OffFile:
         with open(self.filename, "rb") as f:
             self.headerString = readJsonString(f)
             # self.headerStringLength = f.tell() # doesn't work on windows because readline uses a readahead buffer
-            self.headerStringLength = len(self.headerString)
+            # Offsets in the file count bytes, not characters.
+            self.headerStringLength = len(self.headerString.encode("utf-8"))
         self.header = json.loads(self.headerString)
         self.dtype = recordDtype(self.header["FileFormatVersion"], self.header["NumberOfBases"])
         self._dtype_non_descriptive = recordDtype(
-- 
2.43.0


From d13404e55299bd86a9080fb7640c0de40fa722a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:30 +0000
Subject: [PATCH 26/57] fix: ljh2off segments by the size of a pulse record

---
 mass/core/ljh2off.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index f5e2608..13aece9 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -87,7 +87,7 @@ def ljh_records_to_off(ljhfile, f, projectors, basis, n_ignore_presamples, dtype
 
     # To keep linear algebra sizes manageable, loop over the file in segments
     seg_bytes = 2**21
-    rec_per_seg = max(seg_bytes // ljhfile.binary_size, 1)
+    rec_per_seg = max(seg_bytes // ljhfile.pulse_size_bytes, 1)
 
     records_written = 0
     for idx_lo in np.arange(0, ljhfile.nPulses, rec_per_seg):
-- 
2.43.0


From 463f46e56b43278058d7494b601b58f6999fc299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:30 +0000
Subject: [PATCH 27/57] fix: experiment states: integer times, auto-excluded
 states follow the labels

---
 mass/off/experiment_state.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index 2b779a7..d6bdc1a 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -21,7 +21,7 @@ class ExperimentStateFile:
         self.excludeStates = excludeStates
         self.parse_start = 0
         self.allLabels = []
-        self.unixnanos = np.zeros(0)
+        self.unixnanos = np.zeros(0, dtype=np.int64)
         if _parse:
             if self.filename is None:
                 raise Exception("pass filename or datasetFilename or _parse=False")
@@ -83,11 +83,13 @@ class ExperimentStateFile:
         Return a list of state labels that is unique, and contains all entries in allLabels except those in self.excludeStates
         order in the returned list is that of first appearance in allLabels
         """
-        if self.excludeStates == "auto":
-            self.excludeStates = self.calculateAutoExcludes()
+        excludeStates = self.excludeStates
+        if excludeStates == "auto":
+            # depends on all labels seen so far, so don't keep it: later labels can change it
+            excludeStates = self.calculateAutoExcludes()
         r = []
         for label in allLabels:
-            if label in self.excludeStates or label in r:
+            if label in excludeStates or label in r:
                 continue
             r.append(label)
         return r
-- 
2.43.0


From fa5b975af3225d1d41ac995f7d6d45f663edc0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:30 +0000
Subject: [PATCH 28/57] fix: refreshFromFiles finds states again from all
 records

---
 mass/off/channels.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index eddef6d..8158425 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1196,7 +1196,6 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         to be called occasionally when running something that updates in real time
         """
         ds = self.firstGoodChannel()
-        i0_allLabels = len(self.experimentStateFile.allLabels)
         n_old_labels = len(self.experimentStateFile.labels)
         self.experimentStateFile.parse()
         n_new_labels = len(self.experimentStateFile.labels) - n_old_labels
@@ -1204,9 +1203,12 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         for ds in self.values():
             i0_unixnanos = len(ds)
             ds.offFile._updateMmap()  # will update nRecords by mmapping more data in the offFile if available
-            ds._statesDict = self.experimentStateFile.calcStatesDict(
-                ds.unixnano[i0_unixnanos:], ds.statesDict, i0_allLabels, i0_unixnanos)
             n_new_pulses_dict[ds.channum] = len(ds) - i0_unixnanos
+        # States and records can appear in the files in any order (a state may be read before or after records
+        # that precede it), so forget the old states. Channel.statesDict will find them again from all records.
+        with self.includeBad():
+            for ds in self.values():
+                ds._statesDict = None
         return n_new_labels, n_new_pulses_dict
 
     def hist(self, binEdges, attr, states=None, cutRecipeName=None, calibration=None):
-- 
2.43.0


From 23428090b3882ff15dbd2354b5dc3c70a3171d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:30 +0000
Subject: [PATCH 29/57] fix: energy calibration without points converts by
 identity after removals

---
 mass/calibration/energy_calibration.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index bef0378..7ead7cb 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -421,6 +421,13 @@ class EnergyCalibration:  # noqa: PLR0904
 
     def _update_converters(self):
         """There is now one (or more) new data points. All the math goes on in this method."""
+        if self.npts == 0:
+            # Without any points, energy = pulse height (see __init__)
+            self._ph2e = self.__default_ph2e
+            self._e2ph = self.__default_ph2e
+            self._model_is_stale = False
+            return
+
         # Sort in ascending energy order
         sortkeys = np.argsort(self._ph)
         self._ph = self._ph[sortkeys]
-- 
2.43.0


From 97123cb5f807c6e10aba4d13b09aed76572d30b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:30 +0000
Subject: [PATCH 30/57] fix: energy2ph_exact of many energies starts from the
 approximate inverse

---
 mass/calibration/energy_calibration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 7ead7cb..27fe534 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -193,8 +193,9 @@ class EnergyCalibration:  # noqa: PLR0904
             self._e2phwarned = True
 
         if len(energy) > 1024:
-            phs = np.array(energy)
-            # Newton methods with a fixed number of iterations.
+            # Newton methods with a fixed number of iterations, starting from the approximate inverse.
+            energy = np.asarray(energy, dtype=float)
+            phs = self.energy2ph(energy)
             for _ in range(5):
                 phs -= (self(phs) - energy) / self(phs, der=1)
 
-- 
2.43.0


From e3795328352b9f2377c5ce3598ac5db7c0047b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:31 +0000
Subject: [PATCH 31/57] fix: removing calibration points by energy or prefix

---
 mass/calibration/energy_calibration.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 27fe534..bb29d4d 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -310,15 +310,19 @@ class EnergyCalibration:  # noqa: PLR0904
 
     def remove_cal_point_prefix(self, prefix):
         """This removes all cal points whose name starts with <prefix>.  Return number removed."""
+        n_removed = 0
         for name in tuple(self._names):
             if name.startswith(prefix):
                 self.remove_cal_point_name(name)
+                n_removed += 1
+        return n_removed
 
     def remove_cal_point_energy(self, energy, de):
         """Remove cal points at energies with <de> of <energy>"""
         idxs = np.nonzero(np.abs(self._energies - energy) < de)[0]
 
-        for idx in idxs:
+        # Remove the last one first, so that the other indices remain valid
+        for idx in idxs[::-1]:
             self._remove_cal_point_idx(idx)
 
     def add_cal_point(self, pht, energy, name="", pht_error=None, e_error=None, overwrite=True):
-- 
2.43.0


From 5dbfb4939d570160ae42c116e95d1a0db2e77ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:31 +0000
Subject: [PATCH 32/57] fix: a refused calibration point leaves the calibration
 unchanged

---
 mass/calibration/energy_calibration.py | 48 ++++++++++++++++----------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index bb29d4d..1d2f999 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -347,8 +347,6 @@ class EnergyCalibration:  # noqa: PLR0904
         will NOT replace but will add to any existing points at the same energy.
         You can prevent overwriting by setting <overwrite>=False.
         """
-        self._model_is_stale = True
-
         # If <energy> is a string and a known spectral feature's name, use it as the name instead
         # Otherwise, it needs to be a numeric type convertible to float.
         # if energy in STANDARD_FEATURES:
@@ -384,26 +382,40 @@ class EnergyCalibration:  # noqa: PLR0904
             update_index = np.abs(energy - self._energies).argmin()
 
         if update_index is None:   # Add a new point
-            self._ph = np.hstack((self._ph, pht))
-            self._energies = np.hstack((self._energies, energy))
-            self._dph = np.hstack((self._dph, pht_error))
-            self._de = np.hstack((self._de, e_error))
-            self._names.append(name)
+            new_ph = np.hstack((self._ph, pht))
+            new_energies = np.hstack((self._energies, energy))
+            new_dph = np.hstack((self._dph, pht_error))
+            new_de = np.hstack((self._de, e_error))
+            new_names = self._names + [name]
         else:
-            self._ph[update_index] = pht
-            self._energies[update_index] = energy
-            self._dph[update_index] = pht_error
-            self._de[update_index] = e_error
-        self.npts = len(self._ph)
-
-        # Validate: ph and energies must be monotone increasing
-        order_ph = self._ph.argsort()
-        order_en = self._energies.argsort()
+            new_ph = self._ph.copy()
+            new_energies = self._energies.copy()
+            new_dph = self._dph.copy()
+            new_de = self._de.copy()
+            new_names = list(self._names)
+            new_ph[update_index] = pht
+            new_energies[update_index] = energy
+            new_dph[update_index] = pht_error
+            new_de[update_index] = e_error
+            if name:
+                new_names[update_index] = name
+
+        # Validate: ph and energies must be monotone increasing. If not, the existing points are unchanged.
+        order_ph = new_ph.argsort()
+        order_en = new_energies.argsort()
         if not np.all(order_ph == order_en):
-            a = f"PH:     {self._ph[order_ph]}"
-            b = f"Energy: {self._energies[order_ph]}"
+            a = f"PH:     {new_ph[order_ph]}"
+            b = f"Energy: {new_energies[order_ph]}"
             raise Exception(f"Calibration points are not monotone:\n{a}\n{b}")
 
+        self._ph = new_ph[order_ph]
+        self._energies = new_energies[order_ph]
+        self._dph = new_dph[order_ph]
+        self._de = new_de[order_ph]
+        self._names = [new_names[i] for i in order_ph]
+        self.npts = len(self._ph)
+        self._model_is_stale = True
+
     @property
     def cal_point_phs(self):
         return self._ph
-- 
2.43.0


From 1528cc37926b5bb308180566fa44d8e9455fa506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:40 +0000
Subject: [PATCH 33/57] fix: a fractional power of an even power is not
 simplified away

---
 mass/mathstat/derivative.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mass/mathstat/derivative.py b/mass/mathstat/derivative.py
index b23d9a1..dd670f1 100644
--- a/mass/mathstat/derivative.py
+++ b/mass/mathstat/derivative.py
@@ -193,7 +193,9 @@ class ExprMeta(type):
             elif isinstance(b, Identity):
                 return a
             elif isinstance(a, PowerFunction) and isinstance(b, PowerFunction):
-                return PowerFunction(a.n * b.n)
+                # A fractional power of an even power is a power of abs(x), not of x.
+                if a.n % 1 == 0 or b.n % 2 != 0:
+                    return PowerFunction(a.n * b.n)
             elif isinstance(a, ExponentialFunction) and isinstance(b, LogFunction):
                 return Identity()
             elif isinstance(a, LogFunction) and isinstance(b, ExponentialFunction):
-- 
2.43.0


From c67e95c4aecf98c9439c40996797a6caa106a6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:40 +0000
Subject: [PATCH 34/57] fix: extend the state that is active, not the last one
 found

---
 mass/off/experiment_state.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index d6bdc1a..a510fa8 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -114,18 +114,7 @@ class ExperimentStateFile:
         # if the statesDict already exists, and there are no new states, update the active state and return the statesDict.
         if len(statesDict.keys()) > 0 and len(newLabels) == 0:
             assert i0_allLabels > 0
-            for k in statesDict.keys():
-                last_key = k
-                s = statesDict[last_key]
-            if isinstance(s, slice):
-                # set the slice from the start of the state to the last new record
-                s2 = slice(s.start, i0_unixnanos + len(unixnanos))
-            if isinstance(s, list):
-                s_ = s[-1]  # get last instance of same state
-                # set the slice from the start of the state to the last new record
-                s[-1] = slice(s_.start, i0_unixnanos + len(unixnanos))
-                s2 = s
-            statesDict[k] = s2
+            self._extendActiveState(statesDict, self.allLabels[i0_allLabels - 1], i0_unixnanos + len(unixnanos))
             return statesDict
 
         # unixnanos = new record timestamps
@@ -137,11 +126,7 @@ class ExperimentStateFile:
         # the state that was active last time calcStatesDict was called may need special handling
         if len(statesDict.keys()) > 0 and len(newLabels) > 0:
             assert i0_allLabels > 0
-            for k in statesDict.keys():
-                last_key = k
-            s = statesDict[last_key]
-            s2 = slice(s.start, inds[0])
-            statesDict[k] = s2
+            self._extendActiveState(statesDict, self.allLabels[i0_allLabels - 1], inds[0])
         # iterate over self.allLabels because it corresponds to self.unixnanos
         for i, label in enumerate(newLabels):
             if label not in self.unaliasedLabels:
@@ -169,6 +154,20 @@ class ExperimentStateFile:
         self._preventAliasState = True
         return statesDict
 
+    def _extendActiveState(self, statesDict, label, stop):
+        """
+        Extend the state that is active after the previous update, i.e. the one with the latest label, up to record `stop`.
+        """
+        if label not in self.unaliasedLabels:
+            return
+        aliasedLabel = self.labelAliasesDict.get(label, label)
+        v = statesDict[aliasedLabel]
+        if isinstance(v, list):
+            # repeated state: only its latest slice is still growing
+            v[-1] = slice(v[-1].start, stop)
+        else:
+            statesDict[aliasedLabel] = slice(v.start, stop)
+
     def __repr__(self):
         return "ExperimentStateFile: " + self.filename
 
-- 
2.43.0


From d6b52182f7f5c3c27d3d56c81715734ed342b101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:40 +0000
Subject: [PATCH 35/57] fix: saved calibrations keep all points, the power law
 and the GPR setting

---
 mass/calibration/energy_calibration.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 1d2f999..909c0e1 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -774,23 +774,26 @@ class EnergyCalibration:  # noqa: PLR0904
         cal_group.attrs['nonlinearity'] = self.nonlinearity
         cal_group.attrs['curvetype'] = self.CURVETYPE[self._curvetype]
         cal_group.attrs['approximate'] = self._use_approximation
+        cal_group.attrs['useGPR'] = self._use_GPR
 
     @classmethod
     def load_from_hdf5(cls, hdf5_group, name):
         cal_group = hdf5_group[name]
         cal = cls(cal_group.attrs['nonlinearity'],
                   cal_group.attrs['curvetype'],
-                  cal_group.attrs['approximate'])
-
-        _names = cal_group["name"][:]
-        _ph = cal_group["ph"][:]
-        _energies = cal_group["energy"][:]
-        _dph = cal_group["dph"][:]
-        _de = cal_group["de"][:]
-
-        for thisname, ph, e, dph, de in zip(_names, _ph, _energies, _dph, _de):
-            cal.add_cal_point(ph, e, thisname.decode(), dph, de)
-
+                  cal_group.attrs['approximate'],
+                  cal_group.attrs.get('useGPR', True))
+
+        cal.set_nonlinearity(cal_group.attrs['nonlinearity'])
+
+        # Don't use add_cal_point here: it would merge points with similar energies.
+        cal._names = [_name.decode() for _name in cal_group["name"][:]]
+        cal._ph = cal_group["ph"][:]
+        cal._energies = cal_group["energy"][:]
+        cal._dph = cal_group["dph"][:]
+        cal._de = cal_group["de"][:]
+        cal.npts = len(cal._ph)
+        cal._model_is_stale = True
         return cal
 
     def __repr__(self):
-- 
2.43.0


From ffd0d7868e81ec2842e2a59581298d9409e85e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:03 +0000
Subject: [PATCH 36/57] fix: gain curves bracket the zero of the gain above the
 calibration points

---
 mass/calibration/energy_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 909c0e1..c6fdb41 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -604,7 +604,7 @@ class EnergyCalibration:  # noqa: PLR0904
             if underlying_spline(trial_phmax) > 0:
                 self._max_ph = trial_phmax
             else:
-                self._max_ph = 0.99 * brentq(underlying_spline, 0, trial_phmax)
+                self._max_ph = 0.99 * brentq(underlying_spline, self._ph.max(), trial_phmax)
 
         elif self.curvename() == "invgain":
             x = self._ph
-- 
2.43.0


From 0316ad022ba0cb41de878c33a11b53fb16d33712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:26 +0000
Subject: [PATCH 37/57] fix: compiled pulse summaries count more than 65535
 records in one chunk

---
 mass/core/cython_channel.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/cython_channel.pyx b/mass/core/cython_channel.pyx
index a07f273..877aab9 100644
--- a/mass/core/cython_channel.pyx
+++ b/mass/core/cython_channel.pyx
@@ -46,7 +46,8 @@ def summarize_data_cython(
         double ptm
         unsigned short peak_value, peak_index, min_value
         unsigned short signal
-        unsigned short nPulses, nSamples, seg_size
+        unsigned short nSamples
+        Py_ssize_t nPulses, seg_size
         unsigned short e_nPresamples, s_prompt, e_prompt
 
         unsigned short low_th, high_th
-- 
2.43.0


From 30be9319105505d3e8303834890a3c4f5e24db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:26 +0000
Subject: [PATCH 38/57] fix: compiled pulse summaries do not divide by a peak
 value that rounds to zero

---
 mass/core/cython_channel.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/core/cython_channel.pyx b/mass/core/cython_channel.pyx
index 877aab9..493967e 100644
--- a/mass/core/cython_channel.pyx
+++ b/mass/core/cython_channel.pyx
@@ -144,7 +144,10 @@ def summarize_data_cython(
         p_pretrig_rms_array[j] = <float>ptrms
         if ptm < peak_value:
             peak_value -= <unsigned short>(ptm+0.5)
-            p_promptness_array[j] = <float>((promptness_sum / 6.0 - ptm) / peak_value)
+            if peak_value > 0:
+                p_promptness_array[j] = <float>((promptness_sum / 6.0 - ptm) / peak_value)
+            else:
+                p_promptness_array[j] = <float>0.0
             p_peak_value_array[j] = <unsigned short>peak_value
             p_peak_index_array[j] = <unsigned short>peak_index
         else:
-- 
2.43.0


From f24673b2bfe59e84d8189e19d60b2d4f906d631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:26 +0000
Subject: [PATCH 39/57] fix: compiled pulse summaries do not read samples
 beyond the end of a record

---
 mass/core/cython_channel.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/core/cython_channel.pyx b/mass/core/cython_channel.pyx
index 493967e..6b6e327 100644
--- a/mass/core/cython_channel.pyx
+++ b/mass/core/cython_channel.pyx
@@ -195,7 +195,10 @@ def summarize_data_cython(
             p_rise_times_array[j] = <float> timebase
 
         # Calculating the postpeak_deriv with a simple kernel
-        # (f0, f1, f2 = 0, f3, f4) and spike_reject on.
+        # (f0, f1, f2 = 0, f3, f4) and spike_reject on. This needs 7 samples.
+        if peak_samplenumber + 6 >= nSamples:
+            p_postpeak_deriv_array[j] = <float>0.0
+            continue
         s0 = pulse[peak_samplenumber]
         s1 = pulse[peak_samplenumber + 1]
         s2 = pulse[peak_samplenumber + 2]
-- 
2.43.0


From f332e512a82b3f27bb522fb72ecd558afa18d560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:26 +0000
Subject: [PATCH 40/57] fix: summarize_data honours cut_pre and cut_post with
 the compiled implementation, too

---
 mass/core/channel.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 18a1b83..938582a 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -955,8 +955,10 @@ class MicrocalDataSet:  # noqa: PLR0904
                 first = segnum * self.pulse_records.pulses_per_seg
                 end = min(first + self.pulse_records.pulses_per_seg, self.nPulses)
                 idx_slice = slice(first, end)
-                results = sumdata(self.data[idx_slice], self.timebase, self.peak_samplenumber,
-                                  self.pretrigger_ignore_samples, self.nPresamples,
+                # Sample numbers count from the first sample used
+                results = sumdata(self.data[idx_slice, self.cut_pre:self.nSamples - self.cut_post],
+                                  self.timebase, self.peak_samplenumber - self.cut_pre,
+                                  self.pretrigger_ignore_samples, self.nPresamples - self.cut_pre,
                                   0, end - first)
                 self.p_pretrig_mean[idx_slice] = results["pretrig_mean"][:]
                 self.p_pretrig_rms[idx_slice] = results["pretrig_rms"][:]
@@ -964,7 +966,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                 self.p_pulse_rms[idx_slice] = results["pulse_rms"][:]
                 self.p_promptness[idx_slice] = results["promptness"][:]
                 self.p_postpeak_deriv[idx_slice] = results["postpeak_deriv"][:]
-                self.p_peak_index[idx_slice] = results["peak_index"][:]
+                self.p_peak_index[idx_slice] = np.asarray(results["peak_index"]) + self.cut_pre
                 self.p_peak_value[idx_slice] = results["peak_value"][:]
                 self.p_min_value[idx_slice] = results["min_value"][:]
                 self.p_rise_time[idx_slice] = results["rise_times"][:]
-- 
2.43.0


From e8d501507900230d23d37df29351cf35efb62dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:26 +0000
Subject: [PATCH 41/57] fix: summarize_data(use_cython=False) keeps precision
 and does not wrap the peak value

---
 mass/core/channel.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 938582a..841d8f8 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1012,20 +1012,21 @@ class MicrocalDataSet:  # noqa: PLR0904
             self.p_pretrig_deriv[idx_slice] = 0.0
             self.p_pretrig_offset[idx_slice] = 0.0
 
-        self.p_pretrig_mean[idx_slice] = pretrig_data.mean(axis=1)
+        ptm = pretrig_data.mean(axis=1)
+        self.p_pretrig_mean[idx_slice] = ptm
         self.p_pretrig_rms[idx_slice] = pretrig_data.std(axis=1)
         self.p_peak_index[idx_slice] = posttrig_data.argmax(axis=1) + self.nPresamples
-        self.p_peak_value[idx_slice] = posttrig_data.max(axis=1)
         self.p_min_value[idx_slice] = all_data.min(axis=1)
-        self.p_pulse_average[idx_slice] = posttrig_data.mean(axis=1)
 
         # Remove the pretrigger mean from the peak value and the pulse average figures.
-        ptm = self.p_pretrig_mean[idx_slice]
-        self.p_pulse_average[idx_slice] -= ptm
-        self.p_peak_value[idx_slice] -= np.asarray(ptm, dtype=self.p_peak_value.dtype)
-        self.p_pulse_rms[idx_slice] = np.sqrt(
-            (posttrig_data**2.0).mean(axis=1)
-            - ptm * (ptm + 2 * self.p_pulse_average[idx_slice]))
+        # (The stored values are single precision and unsigned: they are not good enough for these computations.)
+        pulse_average = posttrig_data.mean(axis=1) - ptm
+        self.p_pulse_average[idx_slice] = pulse_average
+        peak_value = posttrig_data.max(axis=1)
+        int_ptm = np.asarray(ptm, dtype=self.p_peak_value.dtype)
+        self.p_peak_value[idx_slice] = np.where(peak_value > int_ptm, peak_value - int_ptm, 0)
+        self.p_pulse_rms[idx_slice] = np.sqrt(np.maximum(
+            (posttrig_data**2.0).mean(axis=1) - ptm * (ptm + 2 * pulse_average), 0))
 
         shift1 = (self.data[idx_slice, self.nPresamples - 1] - ptm
                   > 4.3 * self.p_pretrig_rms[idx_slice])
-- 
2.43.0


From 57820cd47bf4cbbc414db2aa23ee393bf6e187a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:11 +0000
Subject: [PATCH 42/57] fix: compiled 5-lag filtering refuses filters of the
 wrong length and does not divide by zero curvature

---
 mass/core/analysis_algorithms.pyx | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 36f1567..9113256 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -842,6 +842,10 @@ def filter_data_5lag_cython(
     nPulses = rawdata.shape[0]
     nSamples = rawdata.shape[1]
     filter_length = nSamples - 4
+    if filter_length < 4:
+        raise ValueError(f"records of {nSamples} samples are too short for a 5-lag filter")
+    if filter_values.shape[0] != filter_length:
+        raise ValueError(f"filter has {filter_values.shape[0]} samples, must have {filter_length}")
     if pulses_per_seg <= 0:
         pulse_size_bytes = 16+2*nSamples
         bigblock = 2**22
@@ -882,6 +886,11 @@ def filter_data_5lag_cython(
         p1 = conv0*(-14.0/70) + conv1*(-7.0/70) + conv3*(7.0/70) + conv4*(14.0/70)
         p2 = conv0*(10.0/70) + conv1*(-5.0/70) + conv2*(-10.0/70) + conv3*(-5.0/70) + conv4*(10.0/70)
 
-        filt_phase[i] = -0.5*p1 / p2
-        filt_value[i] = p0 - 0.25*p1**2 / p2
+        if p2 == 0:
+            # The fit is a straight line: it has no extremum
+            filt_phase[i] = np.nan
+            filt_value[i] = np.nan
+        else:
+            filt_phase[i] = -0.5*p1 / p2
+            filt_value[i] = p0 - 0.25*p1**2 / p2
     return filt_value, filt_phase
\ No newline at end of file
-- 
2.43.0


From c3626b5c99742fa8c33eeca95249b1208923afb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:12 +0000
Subject: [PATCH 43/57] fix: filter_data applies the transform with 5-lag
 filters, too

---
 mass/core/channel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 841d8f8..3f5318d 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1312,7 +1312,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             return
 
         if use_cython is None:
-            use_cython = self._filter_type == "5lag"
+            use_cython = self._filter_type == "5lag" and transform is None
 
         if self.filter is not None:
             filter_values = self.filter.values
@@ -1322,6 +1322,8 @@ class MicrocalDataSet:  # noqa: PLR0904
         if use_cython:
             if self._filter_type == "ats":
                 raise ValueError("Cannot perform Arrival-Time-Safe filtering in Cython yet")
+            if transform is not None:
+                raise ValueError("Cannot transform the data before filtering in Cython yet")
             fdata = mass.core.analysis_algorithms.filter_data_5lag_cython
             fv, fp = fdata(self.alldata, filter_values)
             self.p_filt_value[:] = fv[:]
-- 
2.43.0


From 43b84579a95d5d2eea4972bf57afd621388b6bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:12 +0000
Subject: [PATCH 44/57] fix: arrival-time-safe filtering transforms the
 segment's data, not all data

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 3f5318d..5f2cf2a 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1452,7 +1452,7 @@ class MicrocalDataSet:  # noqa: PLR0904
         data = self.data[first:end]
         if transform is not None:
             ptmean = self.p_pretrig_mean[first:end]
-            data = transform(self.data - ptmean.reshape((seg_size, 1)))
+            data = transform(data - ptmean.reshape((seg_size, 1)))
         conv0 = np.dot(data[:, 1:], filter_values)
         conv1 = np.dot(data[:, 1:], filter_AT)
 
-- 
2.43.0


From aade9795d4e343505edbe5afa0d355f078f15866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:12 +0000
Subject: [PATCH 45/57] fix: noise spectra and autocorrelations of odd-length
 and continuous records

---
 mass/core/channel.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 5f2cf2a..a103d69 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -184,19 +184,20 @@ class NoiseRecords:
 
         spectrum = mass.mathstat.power_spectrum.PowerSpectrum(seg_length // 2, dt=self.timebase)
         if window is None:
-            window = np.ones(seg_length)
+            window = np.ones(spectrum.m2)
         else:
-            window = window(seg_length)
+            window = window(spectrum.m2)
 
         data = self.datafile.alldata
         if self.continuous and seg_length is not None:
             n = np.prod(data.shape)
             n -= n % seg_length
-            data = data[:n].reshape((n // seg_length, seg_length))
+            data = data.ravel()[:n].reshape((n // seg_length, seg_length))
 
         for d in data:
-            y = d - d.mean()
-            if y.max() - y.min() < max_excursion and len(y) == spectrum.m2:
+            # Segments of odd length are used without their last sample
+            y = d[:spectrum.m2] - d[:spectrum.m2].mean()
+            if y.max() - y.min() < max_excursion:
                 spectrum.addDataSegment(y, window=window)
 
         freq = spectrum.frequencies()
@@ -319,7 +320,7 @@ class NoiseRecords:
         entries = 0.0
 
         first, last = data_samples
-        data = self.datafile.alldata[first:last].ravel()
+        data = self.datafile.alldata.ravel()[first:last]
         Nchunks = np.prod(data.shape) // chunksize
         datachunks = data[:Nchunks * chunksize].reshape(Nchunks, chunksize)
         for data in datachunks:
-- 
2.43.0


From 2b7b8e40b49831f6e3388717cebca014c1052819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:12 +0000
Subject: [PATCH 46/57] fix: ToeplitzWhitener of order 0 does not normalise the
 first value twice, and takes integers

---
 mass/core/optimal_filtering.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index fe4d327..6084bf2 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -65,8 +65,8 @@ class ToeplitzWhitener:
 
     def __call__(self, v: npt.ArrayLike) -> np.ndarray:
         "Return whitened vector (or matrix of column vectors) Wv"
-        v = np.asarray(v)
-        if v.ndim > 3:
+        v = 1.0 * np.asarray(v)  # integers become floating point
+        if v.ndim > 2:
             raise ValueError("v must be an array of dimension 1 or 2")
         elif v.ndim == 2:
             w = np.zeros_like(v)
@@ -89,7 +89,7 @@ class ToeplitzWhitener:
             for j in range(i):
                 y[i] -= y[j] * self.theta[i - j]
             y[i] /= self.theta[0]
-        for i in range(self.q, N):
+        for i in range(max(1, self.q), N):
             for j in range(i - self.q, i):
                 y[i] -= y[j] * self.theta[i - j]
             y[i] /= self.theta[0]
@@ -97,8 +97,8 @@ class ToeplitzWhitener:
 
     def solveW(self, v: npt.ArrayLike) -> np.ndarray:
         "Return unwhitened vector (or matrix of column vectors) inv(W)*v"
-        v = np.asarray(v)
-        if v.ndim > 3:
+        v = 1.0 * np.asarray(v)  # integers become floating point
+        if v.ndim > 2:
             raise ValueError("v must be dimension 1 or 2")
         elif v.ndim == 2:
             r = np.zeros_like(v)
@@ -121,7 +121,7 @@ class ToeplitzWhitener:
             for j in range(i):
                 y[i] -= y[j] * self.phi[i - j]
             y[i] /= self.phi[0]
-        for i in range(self.p, N):
+        for i in range(max(1, self.p), N):
             for j in range(i - self.p, i):
                 y[i] -= y[j] * self.phi[i - j]
             y[i] /= self.phi[0]
@@ -129,8 +129,8 @@ class ToeplitzWhitener:
 
     def solveWT(self, v: npt.ArrayLike) -> np.ndarray:
         "Return vector (or matrix of column vectors) inv(W')*v"
-        v = np.asarray(v)
-        if v.ndim > 3:
+        v = 1.0 * np.asarray(v)  # integers become floating point
+        if v.ndim > 2:
             raise ValueError("v must be dimension 1 or 2")
         elif v.ndim == 2:
             r = np.zeros_like(v)
@@ -149,8 +149,8 @@ class ToeplitzWhitener:
 
     def applyWT(self, v: npt.ArrayLike) -> np.ndarray:
         """Return vector (or matrix of column vectors) W'v"""
-        v = np.asarray(v)
-        if v.ndim > 3:
+        v = 1.0 * np.asarray(v)  # integers become floating point
+        if v.ndim > 2:
             raise ValueError("v must be dimension 1 or 2")
         elif v.ndim == 2:
             r = np.zeros_like(v)
-- 
2.43.0


From e87e1c14343e042cea4c214106e38d4c98dbadbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:12 +0000
Subject: [PATCH 47/57] fix: 5-lag and arrival-time-safe filters can be made
 from a whitener only

---
 mass/core/optimal_filtering.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index 6084bf2..64042a2 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -402,18 +402,24 @@ class FilterMaker:
         shorten = 2
         truncated_signal = avg_signal[shorten:-shorten]
         n = len(truncated_signal)
-        assert len(noise_autocorr) >= n, "Noise autocorrelation vector is too short for signal size"
-
-        noise_corr = noise_autocorr[:n]
-        TS = ToeplitzSolver(noise_corr, symmetric=True)
-        Rinv_sig = TS(truncated_signal)
-        Rinv_1 = TS(np.ones(n))
+        if self.noise_autocorr is None:
+            Rinv_sig = self.whitener.applyWT(self.whitener(truncated_signal))
+            Rinv_1 = self.whitener.applyWT(self.whitener(np.ones(n)))
+        else:
+            assert len(noise_autocorr) >= n, "Noise autocorrelation vector is too short for signal size"
+            noise_corr = noise_autocorr[:n]
+            TS = ToeplitzSolver(noise_corr, symmetric=True)
+            Rinv_sig = TS(truncated_signal)
+            Rinv_1 = TS(np.ones(n))
         filt_noconst = Rinv_1.sum() * Rinv_sig - Rinv_sig.sum() * Rinv_1
 
         band_limit(filt_noconst, self.sample_time_sec, fmax, f_3db)
 
         self._normalize_5lag_filter(filt_noconst, avg_signal)
-        variance = bracketR(filt_noconst, noise_corr)
+        if self.noise_autocorr is None:
+            variance = np.sum(self.whitener.solveWT(filt_noconst)**2)
+        else:
+            variance = bracketR(filt_noconst, noise_corr)
 
         # Set weights in the cut_pre and cut_post windows to 0
         if cut_pre > 0 or cut_post > 0:
@@ -583,7 +589,10 @@ class FilterMaker:
         filt_dt = filt[1]
         filt_baseline = filt[2]
 
-        variance = bracketR(filt_noconst, self.noise_autocorr)
+        if self.noise_autocorr is None:
+            variance = np.sum(self.whitener.solveWT(filt_noconst)**2)
+        else:
+            variance = bracketR(filt_noconst, self.noise_autocorr)
         vdv = peak / (np.log(2) * 8 * variance)**0.5
         return Filter(filt_noconst, peak, variance, vdv, filt_dt, filt_baseline, avg_signal, dt_model, 1,
                       fmax, f_3db, cut_pre, cut_post, "ats")
-- 
2.43.0


From 1106b3410bc4920a69920559d619c1b3f9f90e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:12 +0000
Subject: [PATCH 48/57] fix: Fourier filters are normalised to the whole
 average pulse, variance not scaled by the peak

---
 mass/core/optimal_filtering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index 64042a2..c42a5ef 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -470,10 +470,10 @@ class FilterMaker:
         noise_psd = np.asarray(self.noise_psd)
 
         shorten = 2  # to use in 5-lag style
-        avg_signal = avg_signal[shorten:-shorten]
+        truncated_signal = avg_signal[shorten:-shorten]
         n = len(noise_psd)
         window = 1.0
-        sig_ft = np.fft.rfft(avg_signal * window)
+        sig_ft = np.fft.rfft(truncated_signal * window)
 
         if len(sig_ft) != n - shorten:
             raise ValueError(f"signal real DFT and noise PSD are not the same length ({len(sig_ft)} and {n})")
@@ -503,11 +503,11 @@ class FilterMaker:
         # How we compute the uncertainty depends on whether there's a noise autocorrelation result
         if self.noise_autocorr is None:
             noise_ft_squared = (len(noise_psd) - 1) / self.sample_time_sec * noise_psd
-            kappa = (np.abs(sig_ft * self.peak)**2 / noise_ft_squared)[1:].sum()
+            kappa = (np.abs(sig_ft)**2 / noise_ft_squared)[1:].sum()
             variance_fourier = 1. / kappa
         else:
             ac = np.array(self.noise_autocorr)[:len(filt_fourier)]
-            variance_fourier = bracketR(filt_fourier, ac) / self.peak**2
+            variance_fourier = bracketR(filt_fourier, ac)
         vdv = peak / (8 * np.log(2) * variance_fourier)**0.5
         return Filter(filt_fourier, peak, variance_fourier, vdv, None, None, avg_signal, None, 1 + 2 * shorten,
                       fmax, f_3db, cut_pre, cut_post, "fourier")
-- 
2.43.0


From 17dd76fb012755b1c720526a0bfc4bd276255440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:12 +0000
Subject: [PATCH 49/57] fix: arrival-time-safe filters accept cuts of more than
 half a record

---
 mass/core/optimal_filtering.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index c42a5ef..ad7f08e 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -551,12 +551,8 @@ class FilterMaker:
         noise_autocorr = self._compute_autocorr(cut_pre, cut_post)
         avg_signal, peak, dt_model = self._normalize_signal(cut_pre, cut_post)
 
-        ns = len(avg_signal)
+        ns = len(avg_signal)  # excludes the cut samples; _normalize_signal has verified that cut_pre, cut_post are valid
         assert ns == len(dt_model)
-        if cut_pre < 0 or cut_post < 0:
-            raise ValueError(f"(cut_pre,cut_post)=({cut_pre},{cut_post}), but neither can be negative")
-        if cut_pre + cut_post >= ns:
-            raise ValueError(f"cut_pre+cut_post = {cut_pre + cut_post} but should be < {ns}")
 
         MT = np.vstack((avg_signal, dt_model, np.ones(ns)))
 
-- 
2.43.0


From 92b1ac310812645f27e9614d44aaa2dd24625000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:12 +0000
Subject: [PATCH 50/57] fix: filters for negative-going pulses are normalised
 to unit height

---
 mass/core/optimal_filtering.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index ad7f08e..e2dbcdc 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -647,21 +647,20 @@ class FilterMaker:
 
         # Unless passed in, find the signal's peak value. This is normally peak=(max-pretrigger).
         # If signal is negative-going, however, then peak=(pretrigger-min).
+        a = avg_signal[cut_pre:ns - cut_post].min()
+        b = avg_signal[cut_pre:ns - cut_post].max()
+        is_negative = pre_avg - a > b - pre_avg
         if self.peak > 0.0:
             peak_signal = self.peak
+        elif is_negative:
+            peak_signal = pre_avg - a
         else:
-            a = avg_signal[cut_pre:ns - cut_post].min()
-            b = avg_signal[cut_pre:ns - cut_post].max()
-            is_negative = pre_avg - a > b - pre_avg
-            if is_negative:
-                peak_signal = a - pre_avg
-            else:
-                peak_signal = b - pre_avg
+            peak_signal = b - pre_avg
 
         # avg_signal: normalize to have unit peak
         avg_signal -= pre_avg
 
-        rescale = 1 / np.max(avg_signal)
+        rescale = 1 / np.max(-avg_signal if is_negative else avg_signal)
         avg_signal *= rescale
         avg_signal[:self.n_pretrigger] = 0.0
         avg_signal = avg_signal[cut_pre:ns - cut_post]
-- 
2.43.0


From eb62c710f98fb84226b949570eaa4d0375b0f869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:12 +0000
Subject: [PATCH 51/57] fix: copies of a PowerSpectrum keep their class and do
 not share the accumulated sum

---
 mass/mathstat/power_spectrum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index b055573..11ad2f5 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -86,8 +86,9 @@ class PowerSpectrum:
 
         Handy when coding and you don't want to recompute everything, but
         you do want to update the method definitions."""
-        c = PowerSpectrum(self.m, dt=self.dt)
+        c = self.__class__(self.m, dt=self.dt)
         c.__dict__.update(self.__dict__)
+        c.specsum = self.specsum.copy()
         return c
 
     def addDataSegment(self, data, window=None):
-- 
2.43.0


From 05f73584ee045be285e65f0ecdc14d5177cf2dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:12 +0000
Subject: [PATCH 52/57] fix: windows given as a sequence or returning one are
 used for power spectra

---
 mass/mathstat/power_spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index 11ad2f5..3327d7c 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -104,7 +104,7 @@ class PowerSpectrum:
             sum_window = self.m2
         else:
             try:
-                w = window(self.m2)
+                w = np.asarray(window(self.m2))
             except TypeError:
                 w = np.array(window)
             wksp = w * data
@@ -286,7 +286,7 @@ def computeSpectrum(data, segfactor=1, dt=None, window=None):
     try:
         window = window(2 * M)  # precompute
     except TypeError:
-        window = None
+        pass  # it is None or the sequence of weights already
 
     if segfactor == 1:
         spec = PowerSpectrum(M, dt=dt)
-- 
2.43.0


From 06178b52e9c16f7b3d7d1dd3850544ed842f2d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:12 +0000
Subject: [PATCH 53/57] fix: rebinned power spectra include the last frequency
 in the last bin

---
 mass/mathstat/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index 3327d7c..83a1fb0 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -137,7 +137,7 @@ class PowerSpectrum:
         if nbins > self.m:
             raise ValueError(f"Cannot rebin into more than m={self.m} bins")
 
-        newbin = np.asarray(0.5 + np.arange(self.m + 1, dtype=float) / (self.m + 1) * nbins, dtype=int)
+        newbin = np.asarray(0.5 + np.arange(self.m + 1, dtype=float) / self.m * nbins, dtype=int)
         result = np.zeros(nbins + 1, dtype=float)
         for i in range(nbins + 1):
             result[i] = self.specsum[newbin == i].mean()
-- 
2.43.0


From 8e4b6fe250e045085d66904760db714ec00523c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:12 +0000
Subject: [PATCH 54/57] fix: overlapping power spectra are kept when the first
 segments were views of the data

---
 mass/mathstat/power_spectrum.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index 83a1fb0..5dd0404 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -193,8 +193,7 @@ class PowerSpectrumOverlap(PowerSpectrum):
                 np.zeros_like(data),
                 np.array(data)))
         else:
-            self.fullseg[0:self.m] = self.fullseg[self.m:]
-            self.fullseg[self.m:] = data
+            self.fullseg = np.concatenate((self.fullseg[self.m:], np.array(data)))
             PowerSpectrum.addDataSegment(self, self.fullseg, window=window)
 
     def addLongData(self, data, window=None):
-- 
2.43.0


From bb92c8280bda358e6754b3bf1b044d5da6b862a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:12 +0000
Subject: [PATCH 55/57] fix: autocorrelation_broken_from_pulses does not modify
 its input

---
 mass/mathstat/power_spectrum.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index 5dd0404..568f192 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -252,8 +252,7 @@ def autocorrelation_broken_from_pulses(noise_pulses):
     ac = np.zeros(nsamples, dtype=float)
 
     for i in range(npulses):
-        pulse = noise_pulses[:, i]
-        pulse -= pulse.mean()
+        pulse = noise_pulses[:, i] - noise_pulses[:, i].mean()
         ac += np.correlate(pulse, pulse, 'full')[nsamples - 1:]
 
     ac /= npulses
-- 
2.43.0


From cbfcb32715f114785257bf08f8e6ce99921bcab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:12 +0000
Subject: [PATCH 56/57] fix: ToeplitzSolver handles systems of one unknown

---
 mass/mathstat/toeplitz.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mass/mathstat/toeplitz.py b/mass/mathstat/toeplitz.py
index 7320e52..96e365f 100644
--- a/mass/mathstat/toeplitz.py
+++ b/mass/mathstat/toeplitz.py
@@ -118,6 +118,8 @@ class ToeplitzSolver:
 
         T0 = self.T[n - 1]
         x[0] = y[0] / T0
+        if n == 1:
+            return x
         g[0] = self.T[n - 2] / T0
         h[0] = self.T[n] / T0
 
@@ -151,6 +153,8 @@ class ToeplitzSolver:
         # The constant leading value g[K] for each iteration K
         self.gK_leading = np.zeros(n, dtype=float)
 
+        if n == 1:
+            return
         T0 = self.T[0]
         g[0] = self.T[1] / T0
 
@@ -181,6 +185,8 @@ class ToeplitzSolver:
         T = self.T
         T0 = T[0]
         x[0] = y[0] / T0
+        if n == 1:
+            return x
         g[0] = T[1] / T0
 
         for K in range(1, n):  # K = M+1
-- 
2.43.0


From 1ab31048b1c136c991a2210e9ffbb3fdb7ef67f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:12 +0000
Subject: [PATCH 57/57] fix: ToeplitzSolver.mult of integers is not truncated

---
 mass/mathstat/toeplitz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/toeplitz.py b/mass/mathstat/toeplitz.py
index 96e365f..1feef91 100644
--- a/mass/mathstat/toeplitz.py
+++ b/mass/mathstat/toeplitz.py
@@ -92,7 +92,7 @@ class ToeplitzSolver:
         x = np.asarray(x)
         N = len(x)
         assert N == self.n
-        y = np.zeros_like(x)
+        y = np.zeros(N, dtype=np.result_type(x, float))
         y[0] = np.dot(self.T, x)
         for i in range(1, N):
             y[i] = np.dot(self.T[:-i], x[i:])
-- 
2.43.0

