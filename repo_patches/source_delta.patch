From feb4fa049778d864cd9aec0f2054a0c425b89e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 01/28] fix: shape of the NaN impedance of an infeasible
 frequency is (nb elec, nb mag)

---
 src/razorback/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index f5e22ae..eced593 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -214,9 +214,9 @@ def _impedance(
     Nb = len(data.tags[tag_mag])
     Nr = len(data.tags[remote_name]) if remote else 0
     empty = ImpedanceResult(
-        np.tile(np.nan,(Nb, Ne)),
+        np.tile(np.nan,(Ne, Nb)),
         (),
-        np.tile(np.nan,(Nb, Ne)),
+        np.tile(np.nan,(Ne, Nb)),
         np.tile(np.nan,(Nb, Nr)),
     )
 
-- 
2.43.0


From 2c974a17f9477f61f5171f18c640898eeabf4e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 02/28] fix: extract_t keeps samples at the bounds despite
 float rounding of times

---
 src/razorback/signalset.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 399c45b..1a9e6f7 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -31,6 +31,11 @@ def _tupleit(value):
         return (value,)
 
 
+def _time_precision(*times):
+    " absolute float precision of computations with the given times "
+    return 4 * np.max(np.spacing(np.abs(times)))
+
+
 class TagsBase(MutableMapping):
     " Base class for Tags "
     def __init__(self, indices, dct):
@@ -781,6 +786,11 @@ class SyncSignal(object):
         assert round_to in ('left', 'right')
         round_ = dict(left=np.floor, right=np.ceil)[round_to]
         index = (time - self.start) * self.sampling_rate
+        # a time equal to a sample time, up to float precision, is that sample
+        tol = _time_precision(time, self.start, self.stop) * self.sampling_rate
+        nearest = np.round(index)
+        if abs(index - nearest) <= tol:
+            return int(nearest)
         return int(round_(index))
 
     def _index_to_time(self, index):
-- 
2.43.0


From c7d989d1f230afe8b94e429cde7830433bf36af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 03/28] fix: merge accepts synchronous signals whose times
 differ by float rounding

---
 src/razorback/signalset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 1a9e6f7..c590bef 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -530,7 +530,8 @@ class SignalSet(object):
             if len(sr) != 1:
                 continue
             # assert len(sr) == 1, "incompatible sampling rates"
-            assert all(s.start == start for s in ss), (
+            tol = _time_precision(start, stop)
+            assert all(abs(s.start - start) <= tol for s in ss), (
                 'same sampling and time overlap but clock not synchronized')
             sampling_rate = sr.pop()
             signals.append(SyncSignal(
-- 
2.43.0


From 92ac2a2a16c522895917c4c3a2cdcbc4ff18cb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 04/28] fix: merge and extract_t(exclude=True) accept signal
 sets without run

---
 src/razorback/signalset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index c590bef..998f733 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -506,6 +506,9 @@ class SignalSet(object):
                                      for t, ii in s.tags.items()}
         tags = Tags(N, **tags)
 
+        if not all(s.nb_runs for s in seqs):
+            return type(self)(tags)
+
         def rec(d, f, seq):
             "recursively find common intervals"
             if not seq:
@@ -552,7 +555,7 @@ class SignalSet(object):
         If exclude=True, all times inside the given interval are skipped.
 
         """
-        if exclude:
+        if exclude and self.signals:
             left = self.extract_t(self.starts.min(), start)
             right = self.extract_t(stop, self.stops.max())
             return left.join(right)
-- 
2.43.0


From 9a80562283d63843b21e60bdfd29706d96447161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 05/28] fix: merge skips common intervals with less than 2
 samples instead of failing

---
 src/razorback/signalset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 998f733..45692c3 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -526,6 +526,8 @@ class SignalSet(object):
         signals = []
         for start, stop in intervals:
             ss = [s.extract_t(start, stop) for s in seqs]
+            if not all(s.nb_runs for s in ss):
+                continue  # less than 2 samples in common
             assert all(len(s.signals) == 1 for s in ss)
             ss = [s.signals[0] for s in ss]
             sr = {s.sampling_rate for s in ss}
-- 
2.43.0


From fe92dcc4acb679db04ce683d1495f341ba88cfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 06/28] fix: SignalSet(tags, signalset) accepts tags given as a
 dict

---
 src/razorback/signalset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 45692c3..552eff7 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -342,6 +342,7 @@ class SignalSet(object):
         with reordered data.
 
         """
+        tags = Tags(self.nb_channels or None, **tags)
         if self.tags == tags:
             return self
 
-- 
2.43.0


From 081cf6aae9525675c186fde6f89eb25ff35cb909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 07/28] fix: merge_consecutive_runs recognizes consecutive runs
 despite float rounding of times

---
 src/razorback/signalset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 552eff7..26fd080 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -628,7 +628,10 @@ class SignalSet(object):
         for sampling in np.unique(self.sampling_rates):
             mask = self.sampling_rates == sampling
             start, stop = np.where(mask[:, None], self.intervals, np.nan).T
-            is_consecutive = np.isclose(1/sampling, start[1:] - stop[:-1])
+            is_consecutive = np.isclose(
+                1/sampling, start[1:] - stop[:-1],
+                atol=max(1e-8, _time_precision(self.intervals)),
+            )
             for start, stop in _group_indices(is_consecutive):
                 group = self.select_runs(slice(start, stop))
                 data = [
-- 
2.43.0


From 24da1516ca42e73dc98e6314d88e1689d7ab01bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 08/28] fix: ats files with the same relative name are distinct
 lazy arrays, accept Path filenames

---
 src/razorback/io/ats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/io/ats.py b/src/razorback/io/ats.py
index c3b4370..c149c55 100644
--- a/src/razorback/io/ats.py
+++ b/src/razorback/io/ats.py
@@ -64,7 +64,7 @@ def read_ats_sample(filename):
         size=sample_length,
         dtype=np.int32,
     )
-    arr = to_dask_array(bf_arr, name=filename)
+    arr = to_dask_array(bf_arr)
     arr = lsbval * arr
     arr = arr.rechunk()
 
-- 
2.43.0


From 7934150977d535bf9d805ac314be7c3fe1cdf8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 09/28] fix: BinaryFileArray_1D supports negative steps and
 empty slices

---
 src/razorback/io/binary_file_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/io/binary_file_array.py b/src/razorback/io/binary_file_array.py
index b6b5ada..bf57e67 100644
--- a/src/razorback/io/binary_file_array.py
+++ b/src/razorback/io/binary_file_array.py
@@ -84,7 +84,7 @@ class BaseArrayProxy(object):
                 return slice(*index.indices(dim)), slice(None)
             else:
                 # TODO optimize  negative step
-                return slice(None), index
+                return slice(0, dim, 1), index
         # case: int
         elif int(index) == index:
             index = int(index)
@@ -147,7 +147,7 @@ class BinaryFileArray_1D(FileArrayProxy):
 
         with open(filename, 'rb') as f:
             f.seek(offset + self.dtype.itemsize * idx.start)
-            length = idx.stop - idx.start
+            length = max(0, idx.stop - idx.start)
             arr = np.fromfile(f, dtype=self.dtype, count=length)
             if len(arr) != length:
                 # warnings.warn(f"while reading file {str(self.source)!r} : get {len(arr)} values but header indicates {length}")
-- 
2.43.0


From 4e92fe12eacbf0e78384192383399f83478915b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 10/28] fix: error message of calibrations.phoenix for a
 missing level

---
 src/razorback/calibrations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/calibrations.py b/src/razorback/calibrations.py
index eac41cf..9fffbb7 100644
--- a/src/razorback/calibrations.py
+++ b/src/razorback/calibrations.py
@@ -139,7 +139,7 @@ def phoenix(cts_file, level):
     except Exception:
         data = np.loadtxt(cts_file, delimiter=',', skiprows=2, usecols=cols)
     data = data[data[:, 1] == level]
-    assert data.size, f"no level {level} in {cts_file:r}"
+    assert data.size, f"no level {level} in {cts_file!r}"
     freq = data[:, 0]
     values = data[:, 2::2] + 1j * data[:, 3::2]
     calibs = [
-- 
2.43.0


From 097248f720e27cd88a5ab658ecd8395edc6f16f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 11/28] fix: weight objects can be shared by concurrent
 estimations

---
 src/razorback/weights.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/razorback/weights.py b/src/razorback/weights.py
index fa415bf..0cfe632 100644
--- a/src/razorback/weights.py
+++ b/src/razorback/weights.py
@@ -2,6 +2,8 @@
 """
 
 
+import threading
+
 import numpy as np
 from scipy import linalg
 
@@ -42,6 +44,15 @@ class Weights(object):
         return len(self._weights)
 
 
+class _LocalState(threading.local):
+    """ namespace local to each thread
+
+    copies and pickles are new empty namespaces
+    """
+    def __reduce_ex__(self, protocol):
+        return type(self), ()
+
+
 class Huber(object):
     def __init__(self, alpha=1.5):
         self._alpha = alpha
@@ -61,7 +72,7 @@ class Thomson(object):
     def __init__(self, xi=None):
         assert xi is None or xi > 0
         self._xi = xi
-        self._data = {}
+        self._data = _LocalState()
 
     def __str__(self):
         if self._xi is None:
@@ -75,9 +86,9 @@ class Thomson(object):
 
         x = vnorm(residual)
         if it == 0:
-            scale = self._data['scale'] = mad_scale(x, is_absolute=True)
+            scale = self._data.scale = mad_scale(x, is_absolute=True)
         else:
-            scale = self._data['scale']
+            scale = self._data.scale
         x /= scale
         return expexp(x, xi)
 
@@ -91,7 +102,7 @@ class BoundedInfluenceStep(object):
         self._weight_func = weight_func
         self._lower = lower
         self._khi = khi
-        self._prev = {}
+        self._prev = _LocalState()
 
     def __str__(self):
         return 'BoundedInfluenceStep(%s, %g, %g)' % (
@@ -100,7 +111,7 @@ class BoundedInfluenceStep(object):
         )
 
     def __call__(self, it, residual, e, b, invalid_idx):
-        _prev = self._prev
+        _prev = self._prev.__dict__
         if it == 0:
             _prev['it'] = -1
             _prev['bi_weight'] = 1.
-- 
2.43.0


From cbea057ab0221c00a2af19cd692b4aabe32a7533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 12/28] fix: select_channels accepts an array of channel
 identifiers

---
 src/razorback/signalset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 26fd080..a265498 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -428,6 +428,9 @@ class SignalSet(object):
         tagkeys = list(self.tags)  # a list to protect vs unhashable type
         msg = "unknown channel identifier: %r"
 
+        if isinstance(channels, np.ndarray):
+            channels = channels.tolist()
+
         if channels in tagkeys:
             channels = tuple(self.tags[channels])
         elif isinstance(channels, slice):
-- 
2.43.0


From 9f9dabb473930c9fe597c371b1f97169c8784d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 13/28] fix: invalid_idx given as a single 1d-array applies to
 all outputs

---
 src/razorback/mestimator.py | 2 +-
 src/razorback/utils.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/mestimator.py b/src/razorback/mestimator.py
index 9a07223..9473cff 100644
--- a/src/razorback/mestimator.py
+++ b/src/razorback/mestimator.py
@@ -90,7 +90,7 @@ def transfer_function(
 
     if invalid_idx is None or not len(invalid_idx):
         invalid_idx = [()] * len(outputs)
-    if not hasattr(invalid_idx[0], '__getitem__'):
+    if np.ndim(invalid_idx[0]) == 0:
         invalid_idx = [invalid_idx] * len(outputs)
 
     inputs = np.array(inputs, copy=False)
diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index eced593..7514184 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -380,7 +380,7 @@ def apply_prefilter(outputs, inputs, prefilter, invalid_idx):
     """
     if invalid_idx is None or not len(invalid_idx):
         invalid_idx = [np.empty(0, dtype=int)] * len(outputs)
-    if not hasattr(invalid_idx[0], '__getitem__'):
+    if np.ndim(invalid_idx[0]) == 0:
         invalid_idx = [invalid_idx] * len(outputs)
     assert len(invalid_idx) == len(outputs)
 
-- 
2.43.0


From 20150527db4e2d5a09dc431f556d9c70296544fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 14/28] fix: a failing prefilter only invalidates its frequency
 when silent_fail is on

---
 src/razorback/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index 7514184..1512e51 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -231,8 +231,8 @@ def _impedance(
     ## First stage
     if remote:
         br = [coeffs[i] for i in data.tags[remote_name]]
-        remote_ivid = apply_prefilter(b, br, remote_prefilter, None)
         try:
+            remote_ivid = apply_prefilter(b, br, remote_prefilter, None)
             T, ivT = _transfer_function(b, br, remote_weights,
                                         invalid_idx=remote_ivid, **mest_opts)
         # TODO: catch only NonConvergence and (pas assez de poids ???)
@@ -255,8 +255,8 @@ def _impedance(
     if fail_at_first_stage:
         fail_at_second_stage = True
     else:
-        ivid_2 = apply_prefilter(e, be, prefilter, ivid_1)
         try:
+            ivid_2 = apply_prefilter(e, be, prefilter, ivid_1)
             z, ivid = _transfer_function(e, be, weights,
                                          invalid_idx=ivid_2, **mest_opts)
         # TODO: catch only NonConvergence and (pas assez de poids ???)
-- 
2.43.0


From 3ca1c6e529b798779091e8e5a0e044149b5f8ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 15/28] fix: real formulation works in impedance and uses the
 numbering of the given windows

---
 src/razorback/utils.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index 1512e51..d2d3adb 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -392,9 +392,17 @@ def apply_prefilter(outputs, inputs, prefilter, invalid_idx):
     return [np.array(e, dtype=int, copy=False) for e in res]
 
 
-def transfer_function_real_prob(outputs, inputs, **kwargs):
+def transfer_function_real_prob(outputs, inputs, weights=(None,), invalid_idx=None, **kwargs):
     q, n = np.shape(inputs)
 
+    # complex value i is made of the real values (2*i, 2*i+1)
+    if invalid_idx is not None and len(invalid_idx):
+        double = lambda ii: np.ravel(np.add.outer(2 * np.array(ii, dtype=int), [0, 1]))
+        if np.ndim(invalid_idx[0]) == 0:
+            invalid_idx = double(invalid_idx)
+        else:
+            invalid_idx = [double(ii) for ii in invalid_idx]
+
     new_in = np.empty((2*q, 2*n))
     r_in, i_in = np.real(inputs), np.imag(inputs)
     new_in[0::2, 0::2] = r_in
@@ -410,9 +418,12 @@ def transfer_function_real_prob(outputs, inputs, **kwargs):
         new_line[1::2] = i_out
         new_out.append(new_line)
 
-    new_z, ivid = transfer_function(new_out, new_in, **kwargs)
+    new_z, ivid = transfer_function(
+        new_out, new_in, weights, invalid_idx=invalid_idx, **kwargs
+    )
 
     z = new_z[..., 0::2] + 1j * new_z[..., 1::2]
+    ivid = [np.unique(ii // 2) for ii in ivid]
 
     return z, ivid
 
-- 
2.43.0


From 0bfdb2a9bf6f038a350aa50c1473d1b328bd8728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 16/28] fix: time rounding tolerance of extract_t and merge is
 never below 1e-6 sample

---
 src/razorback/signalset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index a265498..8363afd 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -539,7 +539,7 @@ class SignalSet(object):
             if len(sr) != 1:
                 continue
             # assert len(sr) == 1, "incompatible sampling rates"
-            tol = _time_precision(start, stop)
+            tol = max(_time_precision(start, stop), 1e-6 / min(sr))
             assert all(abs(s.start - start) <= tol for s in ss), (
                 'same sampling and time overlap but clock not synchronized')
             sampling_rate = sr.pop()
@@ -801,6 +801,7 @@ class SyncSignal(object):
         index = (time - self.start) * self.sampling_rate
         # a time equal to a sample time, up to float precision, is that sample
         tol = _time_precision(time, self.start, self.stop) * self.sampling_rate
+        tol = max(tol, 1e-6)  # rounding may come from larger times
         nearest = np.round(index)
         if abs(index - nearest) <= tol:
             return int(nearest)
-- 
2.43.0


From 941257d751aa668d347b2a98f9150026d72d379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:47 +0000
Subject: [PATCH 17/28] fix: pack(keep_multi_tags=False) accepts channels with
 several tags

---
 src/razorback/signalset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 8363afd..66d8d08 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -1070,9 +1070,9 @@ class Inventory(object):
 
         """
         if not keep_multi_tags:
-            tags = {t for s in self for t in self.tags
-                    if len(s.tags.get(t, ())) == 1}
-            content = itertools.chain(*map(self.select_channels, tags))
+            # one element by channel, a channel can have several tags
+            content = (s.select_channels(i) for s in self for i in sorted(
+                {v[0] for v in s.tags.values() if len(v) == 1}))
             inventory = type(self)(content)
             return inventory.pack(True)
         freqs, tags = list(self.sampling_rates), self.tags
-- 
2.43.0


From a6ab8317e8f32930922eaf560d15ccd1a7dfc554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:42 +0000
Subject: [PATCH 18/28] fix: tags_from_path refuses field names that are not
 identifiers

---
 src/razorback/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index d2d3adb..79af19b 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -551,6 +551,6 @@ def _get_fields(pattern):
             continue
         if not field_name:
             raise ValueError("no empty field please")
-        if not re.match('[_a-zA-Z][_a-zA-Z0-9]*', field_name):
+        if not re.fullmatch('[_a-zA-Z][_a-zA-Z0-9]*', field_name):
             raise ValueError("'{%s}' is not valid" % field_name)
         yield field_name
-- 
2.43.0


From 38b2de25b0d59a398d0f0641f429ab0dc3f9ce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 19/28] fix: Inventory.extract_groups() takes names, not
 patterns

---
 src/razorback/signalset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 66d8d08..a1c3963 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -1034,7 +1034,7 @@ class Inventory(object):
         """
         new_inv = type(self)()
         for new_tag, old_tags in group_tags:
-            sig = self.filter(*old_tags).pack()
+            sig = self.select_channels(*old_tags).pack()
             sig.tags[new_tag] = sum((sig.tags[t] for t in old_tags), ())
             new_inv.append(sig)
         return new_inv
-- 
2.43.0


From b2561809dff860c67050fee97bb93d1661322448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 20/28] fix: load_ats_from() loads directories with glob
 characters in their name

---
 src/razorback/io/ats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/io/ats.py b/src/razorback/io/ats.py
index c149c55..901cfc7 100644
--- a/src/razorback/io/ats.py
+++ b/src/razorback/io/ats.py
@@ -19,7 +19,7 @@ def load_ats_from(path, calibrations=None):
     """ return a SyncSignal from ats directory
     """
     path = os.path.abspath(path)
-    filenames = glob.glob(os.path.join(path, '*.ats'))
+    filenames = glob.glob(os.path.join(glob.escape(path), '*.ats'))
     return load_ats(filenames, calibrations)
 
 
-- 
2.43.0


From 98f117b9c4cb5694cf39cd89109accf46a297189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 21/28] fix: prefilter_values_mass_proc() left a name on the
 given signal set

---
 src/razorback/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index 79af19b..4b1248d 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -338,6 +338,8 @@ def prefilter_values_mass_proc(
     """
     """
 
+    data = data[:]  # names are added below
+
     E = data.tags.E
     B = data.tags.B
 
-- 
2.43.0


From ae3521f535e57b8e94d5141c08c45bced85c2318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 22/28] fix: signal sets can be copied

copy.copy and copy.deepcopy of a SignalSet (or of an Inventory holding some)
ended in a RecursionError: looking up an attribute of the object not yet
initialized called select_channels, which needs the missing attributes.
---
 src/razorback/signalset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index a1c3963..ab3ff79 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -296,6 +296,8 @@ class SignalSet(object):
         return res
 
     def __getattr__(self, name):
+        if '_tags' not in self.__dict__:  # not initialized yet (e.g. being copied)
+            raise AttributeError(name)
         try:
             return self.select_channels(name)
         except ValueError:
-- 
2.43.0


From f8c686866a2babb3efd90e9277a4b0089672a86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:09 +0000
Subject: [PATCH 23/28] fix: repr of a SignalSet accepts names with a percent
 sign

the names were inserted in a string used afterwards as a format.
---
 src/razorback/signalset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index ab3ff79..cc259a6 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -291,9 +291,8 @@ class SignalSet(object):
         return "%s\n%s\n%s" % (first_line, tags, sig)
 
     def __repr__(self):
-        res = '%s(%s, %%s)' % (type(self).__name__, self.tags)
-        res = res % ', '.join(map(repr, self.signals))
-        return res
+        runs = ', '.join(map(repr, self.signals))
+        return '%s(%s, %s)' % (type(self).__name__, self.tags, runs)
 
     def __getattr__(self, name):
         if '_tags' not in self.__dict__:  # not initialized yet (e.g. being copied)
-- 
2.43.0


From b57e0433cb1eddbd18b5c58ce309e713ec113821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:12 +0000
Subject: [PATCH 24/28] fix: compute_prefilter() works on signal sets

---
 src/razorback/utils.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index 4b1248d..a35dd3c 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -435,22 +435,22 @@ def compute_prefilter(data, freq, prefilter, remote=None, fourier_opts=None):
     """
     default_fourier_opts = dict(Nper=8, overlap=.71, window=slepian_window(4))
     fourier_opts = fourier_opts if fourier_opts else {}
-    fourier_opts = dict(default_fourier_opts.items() + fourier_opts.items())
+    fourier_opts = dict(itertools.chain(default_fourier_opts.items(), fourier_opts.items()))
 
     if remote:
-        inputs = data.select(*data.tags[remote])
-        outputs = data.select(*data.tags.B)
+        i_in, i_out = data.tags[remote], data.tags.B
     else:
-        inputs = data.select(*data.tags.B)
-        outputs = data.select(*data.tags.E)
+        i_in, i_out = data.tags.B, data.tags.E
 
-    c_in, (Nw, Lw, shift) = inputs.fourier_coefficients(freq, **fourier_opts)
-    c_out, (Nw, Lw, shift) = outputs.fourier_coefficients(freq, **fourier_opts)
-    c_in = np.array(c_in, copy=False)
-    c_out = np.array(c_out, copy=False)
+    coeffs, (l_Nw, l_Lw, l_shift) = data.fourier_coefficients(freq, **fourier_opts)
+    c_in = np.array([coeffs[i] for i in i_in])
+    c_out = np.array([coeffs[i] for i in i_out])
 
     filter_value = np.array([prefilter.value(line, c_in.T) for line in c_out])
-    times = (shift * np.arange(Nw) + 0.5 * Lw) /data.sampling_rate + data.start
+    times = np.concatenate([
+        (shift * np.arange(Nw) + 0.5 * Lw) / s.sampling_rate + s.start
+        for s, (Nw, Lw, shift) in zip(data.signals, zip(l_Nw, l_Lw, l_shift))
+    ])
     return times, filter_value
 
 
-- 
2.43.0


From 22efff42c4fe64ea415776d1a57750fbedcdb6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:43 +0000
Subject: [PATCH 25/28] fix: channel names may be equal to methods or arguments
 of Tags

---
 src/razorback/signalset.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index cc259a6..31df318 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -74,14 +74,12 @@ class TagsBase(MutableMapping):
             raise ValueError(msg % (value, self.indices))
         self._tags[key] = value
 
-    def __getattribute__(self, name):
+    def __getattr__(self, name):
+        # only called for names that are not attributes or methods
         try:
-            tags = super(TagsBase, self).__getattribute__('_tags')
-        except AttributeError:
-            tags = None
-        if tags and (name in tags):
-            return tags[name]
-        return super(TagsBase, self).__getattribute__(name)
+            return self.__dict__['_tags'][name]
+        except KeyError:
+            raise AttributeError(name)
 
     def __setattr__(self, name, value):
         if name.startswith('_') or name in ['indices']:
@@ -123,7 +121,9 @@ class Tags(TagsBase):
     SignalSet
 
     """
-    def __init__(self, n=None, **dct):
+    def __init__(*args, **dct):
+        # 'self' and 'n' are legal names
+        self, n = args if len(args) == 2 else args + (dct.pop('n', None),)
         if n is None:
             idx = sum(map(_tupleit, dct.values()), ())
             n = (1 + max(idx)) if idx else 0
-- 
2.43.0


From b97b4a702ba32edac4a2bf472ab868de4b068628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 26/28] fix: Tags.filter() gives names in an order that does
 not depend on the hash seed

---
 src/razorback/signalset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 31df318..c8329b7 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -142,7 +142,8 @@ class Tags(TagsBase):
 
     # filter = fnmatch.filter
     def filter(self, *patterns):
-        return tuple(set().union(*(fnmatch.filter(self, p) for p in patterns)))
+        # dict keys and not a set: the order must not depend on the hash seed
+        return tuple(dict.fromkeys(k for p in patterns for k in fnmatch.filter(self, p)))
 
     def filter_get(self, *patterns):
         return tuple(sorted(set().union(*(map(self.get, self.filter(*patterns))))))
-- 
2.43.0


From 283a94006f3bc6148fa69cb9c7e254fc1b492e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:49 +0000
Subject: [PATCH 27/28] fix: load_ats_from() takes the files in the order of
 their names

---
 src/razorback/io/ats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/io/ats.py b/src/razorback/io/ats.py
index 901cfc7..f0fa965 100644
--- a/src/razorback/io/ats.py
+++ b/src/razorback/io/ats.py
@@ -19,7 +19,7 @@ def load_ats_from(path, calibrations=None):
     """ return a SyncSignal from ats directory
     """
     path = os.path.abspath(path)
-    filenames = glob.glob(os.path.join(glob.escape(path), '*.ats'))
+    filenames = sorted(glob.glob(os.path.join(glob.escape(path), '*.ats')))
     return load_ats(filenames, calibrations)
 
 
-- 
2.43.0


From 946da42e14c164a80db019079c83cb9c7e5489b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:59 +0000
Subject: [PATCH 28/28] fix: metronix calibrations with tables not in ascending
 order

With the chopper on, the first row was taken for the lowest frequency, so
tabulated frequencies below it got the analytic response.
---
 src/razorback/calibrations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/razorback/calibrations.py b/src/razorback/calibrations.py
index 9fffbb7..3c7aad4 100644
--- a/src/razorback/calibrations.py
+++ b/src/razorback/calibrations.py
@@ -83,8 +83,9 @@ def metronix(filename, sampling_rate, chopper_on_limit=None, version_pattern=Non
             )
 
         alpha = alpha_map[vers]
-        freq_min = freq[0]
-        mod_min = table[0, 1]
+        i_min = np.argmin(freq)  # rows may be in any order
+        freq_min = freq[i_min]
+        mod_min = table[i_min, 1]
 
         def calib_func(f):
             if f < freq_min and chopper:
-- 
2.43.0

