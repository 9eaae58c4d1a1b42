From 7eef944cd9c0f96207b7f3c085ee90cde30a9603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:14 +0000
Subject: [PATCH 01/22] fix: leg2vleg claimed a right-canonical site which is
 not canonical

Site pos + 1 loses its size-one left leg and is not right-canonical
anymore; norm() returned wrong values for the result.
---
 mpnum/mparray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index f297d87..25b14c8 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -555,7 +555,8 @@ class MPArray(object):
         ltens[pos + 1] = ltens[pos + 1][0]
 
         lcanon, rcanon = self.canonical_form
-        new_normal_form = min(lcanon, pos), max(rcanon, pos + 1)
+        # Both sites change, so neither of them can be assumed canonical.
+        new_normal_form = min(lcanon, pos), max(rcanon, pos + 2)
         return MPArray(LocalTensors(ltens, cform=new_normal_form))
 
     def split(self, pos):
-- 
2.43.0


From 6311da8a53187a60d2d7701240a7e889162766d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:14 +0000
Subject: [PATCH 02/22] fix: canonical form after updating a local tensor via
 negative index

---
 mpnum/mpstruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index add76d1..2086e8a 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -137,6 +137,8 @@ class LocalTensors(object):
 
         else:
             current = self._ltens[index]
+            if index < 0:
+                index += len(self)  # self._update() needs the actual position
             assert tens.ndim >= 2
             assert current.shape[0] == tens.shape[0]
             assert current.shape[-1] == tens.shape[-1]
-- 
2.43.0


From 5032d5a167c28eef280f20243528f525211e1b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 03/22] fix: LocalTensors.update(slice, ...,
 canonicalization='left')

A single value was treated as sequence of characters, dropping updates
beyond the length of the string.
---
 mpnum/mpstruct.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index 2086e8a..9241e11 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -5,6 +5,7 @@ from __future__ import absolute_import, division, print_function
 import itertools as it
 import collections
 
+import six
 from six.moves import range, zip
 
 
@@ -129,7 +130,8 @@ class LocalTensors(object):
                 tens[:-1], tens[1:]))
             assert self[stop - 1].shape[-1] == tens[-1].shape[-1]
 
-            if not isinstance(canonicalization, collections.Sequence):
+            if (isinstance(canonicalization, six.string_types)
+                    or not isinstance(canonicalization, collections.Sequence)):
                 canonicalization = it.repeat(canonicalization)
 
             for ten, pos, norm in zip(tens, range(*indices), canonicalization):
-- 
2.43.0


From 57aa1e4d0d11bbc3f89bceb045a69ae114eeb2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 04/22] fix: canonical form bookkeeping if all sites are
 canonical

Updating the remaining site with a canonical tensor produced invalid or
untrue canonical forms (all sites canonical); norm() of a rescaled MPA
returned wrong values.
---
 mpnum/mparray.py  | 4 +++-
 mpnum/mpstruct.py | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 25b14c8..3a9e1ff 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -372,7 +372,9 @@ class MPArray(object):
             ltens = self._lt
             ltens_new = it.chain(ltens[:lcanon], [fact * ltens[lcanon]],
                                  ltens[lcanon + 1:])
-            return type(self)(LocalTensors(ltens_new, cform=(lcanon, rcanon)))
+            # The rescaled site is not canonical anymore
+            cform = lcanon, max(lcanon + 1, rcanon)
+            return type(self)(LocalTensors(ltens_new, cform=cform))
 
         raise NotImplementedError("Multiplication by non-scalar not supported")
 
diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index 9241e11..a302672 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -93,8 +93,16 @@ class LocalTensors(object):
         # remain the same (inequality case; second argument).
         if canonicalization == 'left' and self._lcanonical - index >= 0:
             self._lcanonical = max(index + 1, self._lcanonical)
+            # The outermost site is never counted as left-canonical.
+            self._lcanonical = min(len(self) - 1, self._lcanonical)
+            # `index` may have been right-canonical before
+            self._rcanonical = max(index + 1, self._rcanonical)
         elif canonicalization == 'right' and index - self._rcanonical >= -1:
             self._rcanonical = min(index, self._rcanonical)
+            # The outermost site is never counted as right-canonical.
+            self._rcanonical = max(1, self._rcanonical)
+            # `index` may have been left-canonical before
+            self._lcanonical = min(index, self._lcanonical)
         else:
             # If a non-canonical tensor is provided, the sizes of the
             # canoical slices may decrease.
-- 
2.43.0


From 21fc21c49ee071766faff327e7d4be2f8a205add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 05/22] fix: MPArray.sum() with None at the first site

---
 mpnum/mparray.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 3a9e1ff..3a20479 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -434,8 +434,7 @@ class MPArray(object):
             if not hasattr(axes, '__iter__'):
                 axes = (axes,)  # Single integer
             axes = tuple(axes)
-            if len(axes) == 0 or not (axes[0] is not None
-                                      and hasattr(axes[0], '__iter__')):
+            if not any(ax is None or hasattr(ax, '__iter__') for ax in axes):
                 axes = it.repeat(axes)  # Sum over same physical legs everywhere
             else:
                 assert len(axes) == len(self)
-- 
2.43.0


From 09eb5513fe29b4ddc158e994c61382689d2c464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 06/22] fix: dtype of sums of MPAs with different dtypes

max(dtypes) is not a common type; e.g. float64 + complex64 dropped
imaginary parts and int64 + float32 dropped fractional parts.
---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 3a20479..8f2aa21 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1853,7 +1853,7 @@ def _local_add(ltenss):
     newshape = (sum(lt.shape[0] for lt in ltenss), )
     newshape += shape[1:-1]
     newshape += (sum(lt.shape[-1] for lt in ltenss), )
-    res = np.zeros(newshape, dtype=max(lt.dtype for lt in ltenss))
+    res = np.zeros(newshape, dtype=np.result_type(*(lt.dtype for lt in ltenss)))
 
     pos_l, pos_r = 0, 0
     for lt in ltenss:
-- 
2.43.0


From a6bc542d5b6dfe650371b9feb6e64c8f0127d236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 07/22] fix: dtype of block_diag()/local_sum() of arrays with
 different dtypes

---
 mpnum/utils/extmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/utils/extmath.py b/mpnum/utils/extmath.py
index c6480c8..56b7f67 100644
--- a/mpnum/utils/extmath.py
+++ b/mpnum/utils/extmath.py
@@ -90,7 +90,7 @@ def block_diag(summands, axes=(0, 1)):
 
     shapes = np.array([array.shape[:nr_axes] for array in summands])
     res = np.zeros(tuple(shapes.sum(axis=0)) + summands[0].shape[nr_axes:],
-                   dtype=summands[0].dtype)
+                   dtype=np.result_type(*summands))
     startpos = np.zeros(nr_axes, dtype=int)
 
     for array, shape in zip(summands, shapes):
-- 
2.43.0


From f3c414673ce9e4391e27c2d38417c9b5a2e48bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 08/22] fix: MPArray.load() with current h5py (Dataset.value
 was removed)

---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 8f2aa21..fe629a1 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -182,7 +182,7 @@ class MPArray(object):
             with h5py.File(source, 'r') as infile:
                 return cls.load(infile)
 
-        ltens = [source[str(i)].value for i in range(source.attrs['len'])]
+        ltens = [source[str(i)][()] for i in range(source.attrs['len'])]
         return cls(LocalTensors(ltens, cform=source.attrs['canonical_form']))
 
     @classmethod
-- 
2.43.0


From f2bce6db2329f1bd3706b509f3b447e85c028491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 09/22] fix: MPPovmList.lfun_from() with non-integer
 other_weights

Weights were truncated to integers.
---
 mpnum/povm/mppovm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 66004b4..1e7bd84 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -984,7 +984,7 @@ class MPPovm(mp.MPArray):
         """
         assert coeff.shape == self.nsoutdims
         n_nsout = len(self.nsoutdims)
-        myout_n_samples = np.zeros(self.nsoutdims, int)
+        myout_n_samples = np.zeros(self.nsoutdims, float)
         fun_mpp = []
         fun_myout = []
         fun_coeff = []
-- 
2.43.0


From 8a547d69b27343a0d65f4b402a3f5df0a5a4245b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 10/22] fix: random_local_ham() ignored randstate

---
 mpnum/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/factory.py b/mpnum/factory.py
index 208ff9c..c22deea 100644
--- a/mpnum/factory.py
+++ b/mpnum/factory.py
@@ -416,7 +416,8 @@ def random_local_ham(sites, ldim=2, intlen=2, randstate=None):
 
     """
     def get_local_ham():
-        op = _random_op(intlen, ldim, hermitian=True, normalized=True)
+        op = _random_op(intlen, ldim, hermitian=True, normalized=True,
+                        randstate=randstate)
         op = global_to_local(op, sites=intlen)
         return mp.MPArray.from_array(op, ndims=2)
 
-- 
2.43.0


From a10821236da3543968273262f46f4363cc7b3565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:10 +0000
Subject: [PATCH 11/22] fix: variational compression with var_sites > number of
 sites returned the start vector

---
 mpnum/mparray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index fe629a1..c8d778c 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1057,6 +1057,8 @@ class MPArray(object):
         assert_array_equal(target.ndims, 1, "Target is not a MPS")
 
         nr_sites = len(target)
+        # We cannot vary more sites than there are.
+        var_sites = min(var_sites, nr_sites)
         lvecs = [np.array(1, ndmin=2)] + [None] * (nr_sites - var_sites)
         rvecs = [None] * (nr_sites - var_sites) + [np.array(1, ndmin=2)]
         self.canonicalize(right=1)
-- 
2.43.0


From b4ad1f45d263d30d47c0903dca3c279a56b598c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:57 +0000
Subject: [PATCH 12/22] fix: MPPovm.repeat() with partial repetition ignored
 the normalization of the cut part

---
 mpnum/povm/mppovm.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 1e7bd84..77863d5 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -347,11 +347,18 @@ class MPPovm(mp.MPArray):
 
         """
         n_repeat, n_last = nr_sites // len(self), nr_sites % len(self)
+        factors = [self] * n_repeat
         if n_last > 0:
             assert self.ranks[n_last - 1] == 1, \
                 "Partial repetition requires factorizing MP-POVM"
-        return mp.chain([self] * n_repeat
-                        + ([MPPovm(self.lt[:n_last])] if n_last > 0 else []))
+            part = MPPovm(self.lt[:n_last])
+            # The normalization of `part` is arbitrary (e.g. if `self` has
+            # been canonicalized). Its elements must sum to the identity.
+            trace = np.ones(1)
+            for lt in part.lt:
+                trace = np.dot(trace, np.einsum('aijjb->ab', lt))
+            factors.append(part * (np.prod(part.hdims) / trace[0]))
+        return mp.chain(factors)
 
     def expectations(self, mpa, mode='auto'):
         """Computes the exp. values of the POVM elements with given state
-- 
2.43.0


From 67c805f0f1d3a979cee5556691feaca5081c66bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:35 +0000
Subject: [PATCH 13/22] fix: est_pmf_from() counted one used sample if the
 POVMs have no common outcomes

---
 mpnum/povm/mppovm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 77863d5..2c36e42 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -1149,9 +1149,9 @@ class MPPovm(mp.MPArray):
             "conversion not possible")
 
         samples = samples[:, other_support]
-        m_shape = (np.prod(self.nsoutdims),) + other_outdims
-        m_pos = (slice(None),) + tuple(samples.T)
-        n_samples_used = match.reshape(m_shape)[m_pos].any(0).sum()
+        used = match.any(tuple(range(n_nsout)))[tuple(samples.T)]
+        # `used` is a single value if the POVMs have no common outcomes
+        n_samples_used = np.broadcast_to(used, (n_samples,)).sum()
 
         est_pmf = np.zeros(self.nsoutdims, float)
         for outcomes in np.argwhere(match):
-- 
2.43.0


From 73b86453da84bea5135d3ce902592ef10938b025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:31 +0000
Subject: [PATCH 14/22] fix: sparse_cH() did not accept a square array as last
 (cyclic) term

---
 mpnum/utils/physics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpnum/utils/physics.py b/mpnum/utils/physics.py
index dc2550d..debb4c1 100644
--- a/mpnum/utils/physics.py
+++ b/mpnum/utils/physics.py
@@ -112,6 +112,9 @@ def sparse_cH(terms, ldim=2):
         H += sp.kron(left, sp.kron(term, right))
     # The last term acts on the first and last site.
     cyc = terms[-1]
+    if not hasattr(cyc, 'lt'):
+        # Convert regular matrix to MPO
+        cyc = mp.MPArray.from_array_global(np.reshape(cyc, (ldim,) * 4), ndims=2)
     middle = sp.eye(ldim**pos)
     for i in range(cyc.ranks[0]):
         H += sp.kron(cyc.lt[0][0, ..., i], sp.kron(middle, cyc.lt[1][i, ..., 0]))
-- 
2.43.0


From e5b8f9e7c7b93252317c8bf4dd1b1e4cec9118b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:21 +0000
Subject: [PATCH 15/22] fix: LocalTensors.update() of a slice accepted a wrong
 number of tensors

The surplus tensors (or sites) were silently ignored, which left an MPA
with bond dimensions that do not match.
---
 mpnum/mpstruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index a302672..e340d46 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -133,6 +133,8 @@ class LocalTensors(object):
             start, stop, step = indices
             # Allow rank changes if multiple consecutive local tensors change.
             tens = list(tens)
+            assert step == 1 and len(tens) == stop - start, \
+                "Need exactly one tensor for each updated site"
             assert self[start].shape[0] == tens[0].shape[0]
             assert all(t.shape[-1] == u.shape[0] for t, u in zip(
                 tens[:-1], tens[1:]))
-- 
2.43.0


From 3934b3bfe1c4e979c95ed955b7321a5a19b12f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:21 +0000
Subject: [PATCH 16/22] fix: LocalTensors.update() skipped sites without
 declared canonicalization

A sequence of declarations shorter than the updated slice left the
remaining sites unchanged, i.e. with bond dimensions that do not match.
---
 mpnum/mpstruct.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpnum/mpstruct.py b/mpnum/mpstruct.py
index e340d46..3def9d8 100644
--- a/mpnum/mpstruct.py
+++ b/mpnum/mpstruct.py
@@ -142,7 +142,9 @@ class LocalTensors(object):
 
             if (isinstance(canonicalization, six.string_types)
                     or not isinstance(canonicalization, collections.Sequence)):
-                canonicalization = it.repeat(canonicalization)
+                canonicalization = it.repeat(canonicalization, len(tens))
+            else:
+                assert len(canonicalization) == len(tens)
 
             for ten, pos, norm in zip(tens, range(*indices), canonicalization):
                 self._update(pos, ten, canonicalization=norm)
-- 
2.43.0


From b4039c6167c51758c1dd4e87aa5088a2f03794ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:21 +0000
Subject: [PATCH 17/22] fix: MPPovm.embed() accepted negative positions

The result had more than nr_sites sites.
---
 mpnum/povm/mppovm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/povm/mppovm.py b/mpnum/povm/mppovm.py
index 2c36e42..e560831 100644
--- a/mpnum/povm/mppovm.py
+++ b/mpnum/povm/mppovm.py
@@ -295,7 +295,8 @@ class MPPovm(mp.MPArray):
                      else (local_dim,) * nr_sites)
         assert len(local_dim) == nr_sites
         n_right = nr_sites - len(self) - startsite
-        assert n_right >= 0, "Embedding position not possible"
+        assert startsite >= 0 and n_right >= 0, \
+            "Embedding position not possible"
 
         factors = []
         if startsite > 0:
-- 
2.43.0


From db5e1e5676fc2e242bc1cf10c9df2508c45123d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:21 +0000
Subject: [PATCH 18/22] fix: concat() of POVMs ignored the weights if given as
 iterator

The iterator was used up for checking the sum of the weights and the
result was an empty POVM. Unequal numbers of POVMs and weights were
truncated and gave something which is not a POVM.
---
 mpnum/povm/localpovm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpnum/povm/localpovm.py b/mpnum/povm/localpovm.py
index 462eeb1..118bea7 100644
--- a/mpnum/povm/localpovm.py
+++ b/mpnum/povm/localpovm.py
@@ -170,6 +170,8 @@ def concat(povms, weights, info_complete=False):
     :returns: POVM
 
     """
+    povms, weights = tuple(povms), tuple(weights)
+    assert len(povms) == len(weights)
     assert_almost_equal(sum(weights), 1.0)
     elements = sum(([weight * elem for elem in povm]
                     for povm, weight in zip(povms, weights)), [])
-- 
2.43.0


From f661d7b46b9017ee488b736760449f135335041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:21 +0000
Subject: [PATCH 19/22] fix: pad_ranks() without rank failed for an MPA on one
 site

---
 mpnum/mparray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index c8d778c..3729cd1 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1004,7 +1004,7 @@ class MPArray(object):
 
         """
         if rank is None:
-            rank = max(self.ranks)
+            rank = max(self.ranks) if len(self) > 1 else 1
         ranks = it.repeat(rank)
         if not force_rank:
             ranks = [min(f, b) for f, b in zip(full_rank(self.shape), ranks)]
-- 
2.43.0


From 7ebd73f94fdcefb4ba695b0066e1126fdb4d3296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:21 +0000
Subject: [PATCH 20/22] fix: local_sum() failed for open slices

The bounds of the first slice may be omitted or negative as in
embed_slice().
---
 mpnum/mparray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpnum/mparray.py b/mpnum/mparray.py
index 3729cd1..02f756e 100644
--- a/mpnum/mparray.py
+++ b/mpnum/mparray.py
@@ -1767,7 +1767,8 @@ def local_sum(mpas, embed_tensor=None, length=None, slices=None):
     if slices is not None:
         assert length is not None
         slices = tuple(slices)
-        reg = regular_slices(length, slices[0].stop - slices[0].start, offset=1)
+        start, stop, _ = slices[0].indices(length)
+        reg = regular_slices(length, stop - start, offset=1)
         if all(s == t for s, t in zip_longest(slices, reg)):
             slices = None
     # If `slices` is not given, use :func:`_local_sum_identity`.
-- 
2.43.0


From e2aa9c9b02ab81baccc9288c14c113ff8ae5ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:16 +0000
Subject: [PATCH 21/22] fix: eig_sum() of real and complex terms failed with a
 real start vector

---
 mpnum/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpnum/linalg.py b/mpnum/linalg.py
index f590b59..c6fbd7f 100644
--- a/mpnum/linalg.py
+++ b/mpnum/linalg.py
@@ -341,9 +341,9 @@ def _eig_sum_minimize_locally(
     op = 0
     for mpa, ndims, lv, rv in zip(mpas, mpas_ndims, leftvec, rightvec):
         if ndims == 2:
-            op += _eig_local_op(lv, list(mpa.lt[pos]), rv)
+            op = op + _eig_local_op(lv, list(mpa.lt[pos]), rv)
         elif ndims == 1:
-            op += _eig_local_op_mps(lv, list(mpa.lt[pos]), rv)
+            op = op + _eig_local_op_mps(lv, list(mpa.lt[pos]), rv)
         else:
             raise ValueError('ndims = {!r} not supported'.format(ndims))
 
-- 
2.43.0


From 00bb11a2d28511050a73ae977db061a0cf19fcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:18 +0000
Subject: [PATCH 22/22] fix: special.sumup() accepts an iterator of weights, as
 documented

---
 mpnum/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpnum/special.py b/mpnum/special.py
index 8ee5d3d..73b63d4 100644
--- a/mpnum/special.py
+++ b/mpnum/special.py
@@ -66,7 +66,7 @@ def sumup(mpas, rank, weights=None, svdfunc=truncated_svd):
     mpas = list(mpas)
     length = len(mpas[0])
     nr_summands = len(mpas)
-    weights = weights if weights is not None else np.ones(nr_summands)
+    weights = list(weights) if weights is not None else np.ones(nr_summands)
 
     assert all(len(mpa) == length for mpa in mpas)
     assert len(weights) == len(mpas)
-- 
2.43.0

