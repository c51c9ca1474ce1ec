From 86724cba0919cc959719ddb0d9152036d3e18bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 01/28] fix: size the per-thread RTD kernel copies by the
 kernel, not by nsingle-dependent npauli

The number of Wdd2 copies was fixed at construction from si.npauli, while the
threads of the second-order loop index it by thread number: with more threads
than copies the heap was overwritten.
---
 qmeq/approach/base/c_RTD.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index b2584bd..65515dd 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -56,8 +56,6 @@ cdef class ApproachRTD(Approach):
         self.ImGamma = False
         self.printed_warning_ImGamma = False
         self.nsingle_warning_printed = False
-        # For parallel
-        self.nbr_Wdd2_copies = min(self.si.npauli, openmp.omp_get_max_threads())
 
     cpdef long_t get_kern_size(self):
         return self._kernel_handler.npauli
@@ -81,6 +79,9 @@ cdef class ApproachRTD(Approach):
         cdef long_t kern_size = self.get_kern_size()
         cdef long_t kern_size2
 
+        # For parallel
+        self.nbr_Wdd2_copies = max(1, min(kern_size, openmp.omp_get_max_threads()))
+
         self.paulifct = np.zeros((nleads, ndm1, 2), dtype=doublenp)
         self.rez = np.zeros(2, dtype=doublenp)
         self.Wdd2 = np.zeros((self.nbr_Wdd2_copies, nleads, kern_size, kern_size), dtype=self.dtype, order='F')
@@ -183,7 +184,8 @@ cdef class ApproachRTD(Approach):
                     break
 
         # Calcualte Wdd^2 first to be able to resuse memory (Wdd1 & Wdd1 write to the same memory).
-        for i in prange(kern_size, nogil=True):
+        # There is one copy of Wdd2 for every thread of this loop.
+        for i in prange(kern_size, nogil=True, num_threads=self.nbr_Wdd2_copies):
             b = kh.all_bbp[i, 0]
             bcharge = kh.all_bbp[i, 2]
             self.generate_matrix_element_2nd_order(b, bcharge, kh)
-- 
2.43.0


From b1f7a588f6d802743444f91ca62b01b745441fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 02/28] fix: compare the symmetry string by value, not identity

---
 qmeq/baths.py    | 2 +-
 qmeq/leadstun.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 38bb530..81cc39a 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -164,7 +164,7 @@ def make_velph_dict(velph, si, add_zeros=False):
     else:
         velph_dict = {}
     #
-    if si.symmetry is 'spin':
+    if si.symmetry == 'spin':
         velph_dict_spin = dict(velph_dict)
         for j0 in velph_dict:
             j1, j2, j3 = j0
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index 41622c7..baf672d 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -284,7 +284,7 @@ def make_tleads_dict(tleads, si, add_zeros=False):
     else:
         return {}
     #
-    if si.symmetry is 'spin':
+    if si.symmetry == 'spin':
         tleads_dict_spin = dict(tleads_dict)
         for j0 in tleads_dict:
             j1, j2 = j0
@@ -356,7 +356,7 @@ def make_array(lst_old, lst, si, npar=None, use_symmetry=True):
     else:
         lst_arr = np.zeros(npar, dtype=doublenp)
     #
-    if si.symmetry is 'spin' and use_symmetry:
+    if si.symmetry == 'spin' and use_symmetry:
         return np.concatenate((lst_arr, lst_arr))
     else:
         return lst_arr
-- 
2.43.0


From 31275583bdff167d65ac5f55def3d46fad01d305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 03/28] fix: LeadsTunneling.change() updates tleads_array

The RTD approach reads tleads_array for the energy current.
---
 qmeq/leadstun.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index baf672d..3b714a5 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -507,6 +507,7 @@ class LeadsTunneling(object):
                     if tleads_diff != 0:
                         tleads_add.update({j0: tleads_diff})
                         self.tleads.update({j0: tleads_diff})
+            self.tleads_array = make_tleads_array(self.tleads, self.si)
             # Add the differences
             self.add(tleads_add, updateq=False, lstq=False)
 
-- 
2.43.0


From 4a0f4e0945f55f7bf5ef7c34a6c4f64f31175fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 04/28] fix: update_Tba0/update_Vbbp0 use the normalised
 amplitudes

update_Tba0 and update_Vbbp0 built the normalised dictionary but
constructed the many-body amplitudes from the raw argument, so list and
array inputs failed, and the caller's dictionary was kept by reference.
---
 qmeq/baths.py    | 4 ++--
 qmeq/leadstun.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 81cc39a..4a49736 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -330,6 +330,6 @@ class PhononBaths(object):
         """
         si = self.si
         si.nbaths = nbaths
-        self.velph = make_velph_dict(velph, si)
+        self.velph = dict(make_velph_dict(velph, si))
         self.mtype = mtype
-        self.Vbbp0 = elph_construct_Vbbp(self, velph)
+        self.Vbbp0 = elph_construct_Vbbp(self, self.velph)
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index 3b714a5..5faae9e 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -547,7 +547,7 @@ class LeadsTunneling(object):
         si = self.si
         si.nleads = nleads
         si.nleads_sym = nleads//2 if si.symmetry == 'spin' else nleads
-        self.tleads = make_tleads_dict(tleads, si)
-        self.tleads_array = make_tleads_array(tleads, self.si)
+        self.tleads = dict(make_tleads_dict(tleads, si))
+        self.tleads_array = make_tleads_array(self.tleads, self.si)
         self.mtype = mtype
-        self.Tba0 = construct_Tba(self, tleads)
+        self.Tba0 = construct_Tba(self, self.tleads)
-- 
2.43.0


From 5afb79b9a72ade3bfc38cf4a43993c9bbc1c51a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 05/28] fix: sort_eigenstates leaves the caller's list alone

---
 qmeq/builder/various.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 18ed2c6..bdafd59 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -76,10 +76,10 @@ def sort_eigenstates(self, srt=None):
             self.qd.Ea_ext = construct_Ea_extended(self)
         else:
             self.qd.Ea_ext[0] = self.qd.Ea
-        srt.append(-1)
+        srt = list(srt)+[-1]
         self.si.states_order = np.array(multiarray_sort(self.qd.Ea_ext, srt)[-1], dtype=int)
     else:
-        self.si.states_order = range(self.si.nmany)
+        self.si.states_order = list(range(self.si.nmany))
 
 
 def get_phi0(self, b_, bp_):
-- 
2.43.0


From 1a36a3f0f549d821600df5ed7c948158703234c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 06/28] fix: set_statesdm copies the given states

StateIndexingPauli and StateIndexingDMc kept the caller's list (for
use_all_states() this was si.chargelst) and appended to it.
---
 qmeq/builder/various.py |  2 +-
 qmeq/indexing.py        | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index bdafd59..61da22c 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -298,7 +298,7 @@ def remove_states(self, dE):
         (Modifies) List containing indices of many-body state under consideration.
     """
     Emax = min(self.qd.Ea)+dE
-    statesdm = [[] for _ in range(self.si.nsingle+1)]
+    statesdm = [[] for _ in range(self.si.ncharge)]
     for charge in range(self.si.ncharge):
         for b in self.si.chargelst[charge]:
             if self.qd.Ea[b] < Emax:
diff --git a/qmeq/indexing.py b/qmeq/indexing.py
index 0a9f834..6ebb7c5 100644
--- a/qmeq/indexing.py
+++ b/qmeq/indexing.py
@@ -718,8 +718,10 @@ class StateIndexingPauli(StateIndexing):
         statesdm: list
             List containing indices of many-body state under consideration.
         """
-        self.statesdm = statesdm
-        self.statesdm.append([])
+        # Use a copy, so that the list given by the caller stays as it is.
+        # An empty list is appended at the end, which is used for charge ncharge.
+        statesdm = [list(statesdm[j1]) for j1 in range(self.ncharge)]
+        self.statesdm = statesdm + [[]]
         self.npauli_ = 0
         for j1 in range(self.ncharge):
             self.npauli_ += len(statesdm[j1])
@@ -894,8 +896,10 @@ class StateIndexingDM(StateIndexing):
         statesdm: list
             List containing indices of many-body state under consideration.
         """
-        self.statesdm = list(statesdm)
-        self.statesdm.append([])
+        # Use a copy, so that the list given by the caller stays as it is.
+        # An empty list is appended at the end, which is used for charge ncharge.
+        statesdm = [list(statesdm[j1]) for j1 in range(self.ncharge)]
+        self.statesdm = statesdm + [[]]
         self.ndm0_, self.ndm1_, self.npauli_ = 0, 0, 0
         for j1 in range(self.ncharge):
             self.npauli_ += len(statesdm[j1])
@@ -1096,8 +1100,10 @@ class StateIndexingDMc(StateIndexing):
         statesdm: list
             List containing indices of many-body state under consideration.
         """
-        self.statesdm = statesdm
-        self.statesdm.append([])
+        # Use a copy, so that the list given by the caller stays as it is.
+        # An empty list is appended at the end, which is used for charge ncharge.
+        statesdm = [list(statesdm[j1]) for j1 in range(self.ncharge)]
+        self.statesdm = statesdm + [[]]
         self.ndm0_, self.ndm1_, self.npauli_ = 0, 0, 0
         for j1 in range(self.ncharge):
             self.npauli_ += len(statesdm[j1])
-- 
2.43.0


From 81cb365883d9c1da56f42ca6b98cc539999e2929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 07/28] fix: remove_fock_states can be called again with 'Lin'
 indexing

The second call interpreted the already enumerated charge lists as Lin
indices. The order of states used for printing is reset as well.
---
 qmeq/indexing.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/qmeq/indexing.py b/qmeq/indexing.py
index 6ebb7c5..46f9614 100644
--- a/qmeq/indexing.py
+++ b/qmeq/indexing.py
@@ -506,16 +506,19 @@ class StateIndexing(object):
             print("WARNING: For 'sz' or 'ssq' indexing, nsingle has to be even. \
                    Using 'Lin' indexing.")
             self.indexing = 'Lin'
-            self.chargelst = construct_chargelst(nsingle)
+            self.chargelst_lin = construct_chargelst(nsingle)
+            self.chargelst = [list(lst) for lst in self.chargelst_lin]
             self.i = list(range(self.nmany))
         elif indexing == 'Lin':
-            self.chargelst = construct_chargelst(nsingle)
+            self.chargelst_lin = construct_chargelst(nsingle)
+            self.chargelst = [list(lst) for lst in self.chargelst_lin]
             self.i = list(range(self.nmany))
         else:
             print("WARNING: The indexing has to be 'Lin', 'charge', or 'sz'. \
                    Using 'Lin' indexing.")
             self.indexing = 'Lin'
-            self.chargelst = construct_chargelst(nsingle)
+            self.chargelst_lin = construct_chargelst(nsingle)
+            self.chargelst = [list(lst) for lst in self.chargelst_lin]
             self.i = list(range(self.nmany))
         self.j = make_inverse_map(self.i)
         # Note that these quantum numbers to state and state to quantum numbers dictionaries
@@ -625,7 +628,7 @@ class StateIndexing(object):
             self.removed_fock_states[ind] = True
         self.nmany = self.nmany_ - sum(self.removed_fock_states)
 
-        chargelst_lin = self.chargelst if self.indexing == 'Lin' else self.chargelst_lin
+        chargelst_lin = self.chargelst_lin
         ncharge = self.ncharge
         for charge in range(ncharge):
             charge_states = []
@@ -662,6 +665,7 @@ class StateIndexing(object):
             self.j[self.i[j1]] = j1
 
         self.qn_ind, self.ind_qn = make_quantum_numbers(self)
+        self.states_order = list(range(self.nmany))
 
         self.states_changed = True
 
-- 
2.43.0


From f1b33fe82aa7d9d910b1315638addbab6ee907ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 08/28] fix: remove_coherences drops exactly the requested
 density matrix elements

The renumbering relied on the order of mapdm0, left inddm0/conjdm0/booldm0
and dictionaries of counts inconsistent, and for two-way indexing removed
the wrong elements. Rebuild the maps in set_mapdm() instead, and skip
elements without an index in the 2vN and RTD approaches.
---
 qmeq/approach/base/c_neumann2.pyx  |  6 ++++--
 qmeq/approach/base/neumann2.py     | 10 ++++++++--
 qmeq/approach/c_kernel_handler.pyx |  2 ++
 qmeq/approach/kernel_handler.py    |  7 ++++++-
 qmeq/builder/various.py            | 31 +++++++-----------------------
 qmeq/indexing.py                   | 25 ++++++++++++++++++++++++
 6 files changed, 52 insertions(+), 29 deletions(-)

diff --git a/qmeq/approach/base/c_neumann2.pyx b/qmeq/approach/base/c_neumann2.pyx
index 5e92b5d..ec8209f 100644
--- a/qmeq/approach/base/c_neumann2.pyx
+++ b/qmeq/approach/base/c_neumann2.pyx
@@ -173,11 +173,13 @@ cdef class TermsCalculator2vN:
             for j in range(bcount):
                 b1 = statesdm[bcharge, j]
                 b1b = kh.get_ind_dm0(b1, b, bcharge)
-                kern0[cb, b1b] = kern0[cb, b1b] + fp*Tba[l, c, b1]
+                if b1b != -1:
+                    kern0[cb, b1b] = kern0[cb, b1b] + fp*Tba[l, c, b1]
             for j in range(ccount):
                 c1 = statesdm[ccharge, j]
                 cc1 = kh.get_ind_dm0(c, c1, ccharge)
-                kern0[cb, cc1] = kern0[cb, cc1] - fm*Tba[l, c1, b]
+                if cc1 != -1:
+                    kern0[cb, cc1] = kern0[cb, cc1] - fm*Tba[l, c1, b]
             # ---------------------------------------------------------------------------
             # Phi[1] terms
             # 2nd and 7th terms
diff --git a/qmeq/approach/base/neumann2.py b/qmeq/approach/base/neumann2.py
index 4e69f90..ecfcdf9 100644
--- a/qmeq/approach/base/neumann2.py
+++ b/qmeq/approach/base/neumann2.py
@@ -289,6 +289,8 @@ class Approach2vN(ApproachBase2vN):
             for b, bp in itertools.combinations_with_replacement(statesdm[charge], 2):
                 bbp = si.get_ind_dm0(b, bp, charge)
                 bpb = si.get_ind_dm0(bp, b, charge)
+                if bbp == -1 or bpb == -1:
+                    continue
                 shuffle[bbp, bpb] = 1
                 shuffle[bpb, bbp] = 1
         phi1_phi0_conj = np.dot(np.conjugate(phi1_phi0), shuffle)
@@ -300,6 +302,8 @@ class Approach2vN(ApproachBase2vN):
             ccharge = charge+1
             for b, bp in itertools.product(statesdm[bcharge], statesdm[bcharge]):
                 bbp = si.get_ind_dm0(b, bp, bcharge)
+                if bbp == -1:
+                    continue
                 kern[bbp, bbp] = E[b]-E[bp]
 
                 for a1 in statesdm[acharge]:
@@ -482,10 +486,12 @@ class TermsCalculator2vN(object):
                 # Phi[0] terms
                 for b1 in statesdm[bcharge]:
                     b1b = si.get_ind_dm0(b1, b, bcharge)
-                    kern0[cb, b1b] += +Tba[l, c, b1]*fp
+                    if b1b != -1:
+                        kern0[cb, b1b] += +Tba[l, c, b1]*fp
                 for c1 in statesdm[ccharge]:
                     cc1 = si.get_ind_dm0(c, c1, ccharge)
-                    kern0[cb, cc1] += -Tba[l, c1, b]*fm
+                    if cc1 != -1:
+                        kern0[cb, cc1] += -Tba[l, c1, b]*fm
                 # ---------------------------------------------------------------------------
                 # Phi[1] terms
                 # 2nd and 7th terms
diff --git a/qmeq/approach/c_kernel_handler.pyx b/qmeq/approach/c_kernel_handler.pyx
index 0396d79..502fe2d 100644
--- a/qmeq/approach/c_kernel_handler.pyx
+++ b/qmeq/approach/c_kernel_handler.pyx
@@ -272,6 +272,8 @@ cdef class KernelHandlerRTD(KernelHandler):
                     long_t bcharge, long_t a, long_t ap, long_t acharge, int_t mi) nogil:
         cdef long_t indx1 = self.get_ind_dm0(b, bp, bcharge)
         cdef long_t indx2 = self.get_ind_dm0(a, ap, acharge)
+        if indx1 == -1 or indx2 == -1:
+            return
         if b != bp:
             indx1 -= self.npauli
             if b > bp:
diff --git a/qmeq/approach/kernel_handler.py b/qmeq/approach/kernel_handler.py
index 6ba4fad..c230b25 100644
--- a/qmeq/approach/kernel_handler.py
+++ b/qmeq/approach/kernel_handler.py
@@ -293,6 +293,8 @@ class KernelHandlerRTD(KernelHandler):
 
         indx1 = self.si.get_ind_dm0(b, bp, bcharge)
         indx2 = self.si.get_ind_dm0(a, ap, acharge)
+        if indx1 == -1 or indx2 == -1:
+            return
         if b != bp:
             indx1 -= self.npauli
             if b > bp:
@@ -392,7 +394,10 @@ class KernelHandlerRTD(KernelHandler):
         self.Lnn : ndarray
             (Modifies) the anti-commutator Liouvillian connecting non-diagonal elements
         """
-        indx = self.si.get_ind_dm0(a1, b1, charge) - self.npauli
+        indx = self.si.get_ind_dm0(a1, b1, charge)
+        if indx == -1:
+            return
+        indx -= self.npauli
         if a1 > b1:
             indx += self.ndm0 - self.npauli
         self.Lnn[indx, indx] += fct
diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 61da22c..a3b0c04 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -1,5 +1,7 @@
 """Module containing various functions."""
 
+import itertools
+
 import numpy as np
 
 from ..indexing import szrange
@@ -254,32 +256,13 @@ def remove_coherences(self, dE):
     """
     # Find which coherences to remove
     si, E = self.si, self.qd.Ea
-    ilst, indlst = [], []
-    for i in range(si.ndm0_):
-        if si.mapdm0[i] != -1:
-            ind = si.mapdm0[i]
-            b, bp = si.inddm0[ind]
+    pairs = []
+    for charge in range(si.ncharge):
+        for b, bp in itertools.combinations(si.statesdm[charge], 2):
             if abs(E[b]-E[bp]) > dE:
-                si.mapdm0[i] = -1
-            else:
-                ilst.append(i)
-                indlst.append(ind)
-    # Count the new number of density matrix elements
-    srt = multiarray_sort(np.array([ilst, indlst]), [1, 0])
-    ilst, indlst = srt[0], srt[1]
-    ind, count = 0, 0
-    for i in range(len(indlst)):
-        if indlst[i] == ind:
-            indlst[i] = count
-        else:
-            count += 1
-            ind = indlst[i]
-            indlst[i] = count
+                pairs.append((b, bp))
     # Relabel the density matrix elements
-    si.ndm0 = count+1
-    si.ndm0r = 2*si.ndm0-si.npauli
-    for i in range(len(indlst)):
-        si.mapdm0[ilst[i]] = indlst[i]
+    si.remove_coherences(pairs)
 
 
 def remove_states(self, dE):
diff --git a/qmeq/indexing.py b/qmeq/indexing.py
index 46f9614..8f6e104 100644
--- a/qmeq/indexing.py
+++ b/qmeq/indexing.py
@@ -460,6 +460,8 @@ class StateIndexing(object):
     states_order : list
         Order of states used by many-body state printing functions in qmeq.various
         print_state() and print_all_states()
+    removed_coherences : set
+        Pairs (b, bp) of many-body states for which the coherence is neglected.
     """
 
     def __init__(self, nsingle, indexing='Lin', symmetry=None, nleads=0, nbaths=0):
@@ -526,6 +528,7 @@ class StateIndexing(object):
         self.qn_ind, self.ind_qn = make_quantum_numbers(self)
         self.states_order = list(range(self.nmany))
         self.removed_fock_states = None
+        self.removed_coherences = set()
         self.nmany_ = self.nmany
 
         self.states_changed = True
@@ -669,6 +672,21 @@ class StateIndexing(object):
 
         self.states_changed = True
 
+    def remove_coherences(self, pairs):
+        """
+        Remove coherences between the states given in pairs.
+
+        Parameters
+        ----------
+        pairs : list
+            List containing pairs (b, bp) of many-body states.
+        """
+        for b, bp in pairs:
+            if b != bp:
+                self.removed_coherences.update({(b, bp), (bp, b)})
+        self.set_mapdm()
+        self.states_changed = True
+
 
 class StateIndexingPauli(StateIndexing):
     """
@@ -726,6 +744,7 @@ class StateIndexingPauli(StateIndexing):
         # An empty list is appended at the end, which is used for charge ncharge.
         statesdm = [list(statesdm[j1]) for j1 in range(self.ncharge)]
         self.statesdm = statesdm + [[]]
+        self.removed_coherences = set()
         self.npauli_ = 0
         for j1 in range(self.ncharge):
             self.npauli_ += len(statesdm[j1])
@@ -904,6 +923,7 @@ class StateIndexingDM(StateIndexing):
         # An empty list is appended at the end, which is used for charge ncharge.
         statesdm = [list(statesdm[j1]) for j1 in range(self.ncharge)]
         self.statesdm = statesdm + [[]]
+        self.removed_coherences = set()
         self.ndm0_, self.ndm1_, self.npauli_ = 0, 0, 0
         for j1 in range(self.ncharge):
             self.npauli_ += len(statesdm[j1])
@@ -966,6 +986,8 @@ class StateIndexingDM(StateIndexing):
         # Off-diagonal density matrix elements
         for charge in range(self.ncharge):
             for b, bp in itertools.combinations(self.statesdm[charge], 2):
+                if (b, bp) in self.removed_coherences:
+                    continue
                 if self.indexing == 'sz':
                     if self.ind_qn[b][1] == self.ind_qn[bp][1]:
                         add_elem(counter, bp, b, charge, dictq=False, conjq=False)
@@ -1108,6 +1130,7 @@ class StateIndexingDMc(StateIndexing):
         # An empty list is appended at the end, which is used for charge ncharge.
         statesdm = [list(statesdm[j1]) for j1 in range(self.ncharge)]
         self.statesdm = statesdm + [[]]
+        self.removed_coherences = set()
         self.ndm0_, self.ndm1_, self.npauli_ = 0, 0, 0
         for j1 in range(self.ncharge):
             self.npauli_ += len(statesdm[j1])
@@ -1171,6 +1194,8 @@ class StateIndexingDMc(StateIndexing):
         for charge in range(self.ncharge):
             # for b, bp in itertools.product(self.statesdm[charge], self.statesdm[charge]):
             for b, bp in itertools.permutations(self.statesdm[charge], 2):
+                if (b, bp) in self.removed_coherences:
+                    continue
                 if self.indexing == 'sz':
                     if self.ind_qn[b][1] == self.ind_qn[bp][1]:
                         counter = add_elem(counter, b, bp, charge)
-- 
2.43.0


From 47a01befccb8d0b526ff1ff86e5061e8241e3dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 09/28] fix: get_phi0 and get_phi1 for approaches without
 coherences and for removed states

The kerntype stored in FunctionProperties is never set, so Pauli and RTD
density matrices were indexed out of range or as if they had coherences,
states which are not kept returned elements of other states, and charges
were taken from Fock states, which many-body input does not have.
---
 qmeq/builder/various.py | 52 ++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index a3b0c04..8c3219d 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -26,7 +26,28 @@ def get_charge(self, b):
     int
         Charge of the many-body state b.
     """
-    return sum(self.si.get_state(b))
+    return self.si.ind_qn[b][0]
+
+
+def is_kept(self, b, charge):
+    """
+    Check if the many-body state b is used for the transport calculations.
+
+    Parameters
+    ----------
+    self : Builder or Approach.
+        The system given as Builder or Approach object.
+    b : int
+        Label of the many-body state.
+    charge : int
+        Charge of the many-body state b.
+
+    Returns
+    -------
+    bool
+        True if the state is considered in calculations involving density matrix.
+    """
+    return b in self.si.statesdm[charge]
 
 
 def multiarray_sort(arr, srt=[0]):
@@ -103,24 +124,25 @@ def get_phi0(self, b_, bp_):
     """
     b = self.si.states_order[b_]
     bp = self.si.states_order[bp_]
-    bcharge = sum(self.si.get_state(b))
-    bpcharge = sum(self.si.get_state(bp))
+    bcharge = get_charge(self, b)
+    bpcharge = get_charge(self, bp)
     phi0bbp = 0.0
-    if self.funcp.kerntype == 'Pauli':
-        if b == bp:
-            ind = self.si.get_ind_dm0(b, b, bcharge, maptype=1)
-            phi0bbp = self.phi0[ind]
-    elif bcharge == bpcharge:
+    if bcharge != bpcharge or not is_kept(self, b, bcharge) or not is_kept(self, bp, bpcharge):
+        return phi0bbp
+    npauli = self.si.npauli
+    if b == bp:
+        ind = self.si.get_ind_dm0(b, b, bcharge, maptype=1)
+        phi0bbp = self.phi0[ind]
+    elif len(self.phi0) > npauli:
         ind = self.si.get_ind_dm0(b, bp, bcharge, maptype=1)
         conj = self.si.get_ind_dm0(b, bp, bcharge, maptype=3)
         if ind != -1:
             if type(self.si).__name__ == 'StateIndexingDMc':
                 phi0bbp = self.phi0[ind]
             else:
-                ndm0, npauli = self.si.ndm0, self.si.npauli
+                ndm0 = self.si.ndm0
                 phi0bbp = (self.phi0[ind] + 1j*self.phi0[ndm0-npauli+ind]
-                           * (+1 if conj else -1)
-                           * (0 if ind < npauli else 1))
+                           * (+1 if conj else -1))
     return phi0bbp
 
 
@@ -143,14 +165,16 @@ def get_phi1(self, l, c_, b_):
     phi0bbp : complex
         A matrix element of the reduced density matrix (complex number).
     """
-    if self.funcp.kerntype == 'Pauli':
+    if self.phi1 is None:
         return None
     else:
         c = self.si.states_order[c_]
         b = self.si.states_order[b_]
-        ccharge = sum(self.si.get_state(c))
-        bcharge = sum(self.si.get_state(b))
+        ccharge = get_charge(self, c)
+        bcharge = get_charge(self, b)
         phi1cb = 0.0
+        if not is_kept(self, c, ccharge) or not is_kept(self, b, bcharge):
+            return phi1cb
         if ccharge == bcharge+1:
             ind = self.si.get_ind_dm1(c, b, bcharge)
             phi1cb = self.phi1[l, ind]
-- 
2.43.0


From 67da4459b4aa4d73a6ffc29c4ecd43e0886f1a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 10/28] fix: use_all_states restores the electron-phonon
 indexing as well

---
 qmeq/builder/builder_elph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index e67122f..b5486cc 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -139,6 +139,10 @@ class BuilderElPh(BuilderBase):
         BuilderBase.remove_states(self, dE)
         self.si_elph.set_statesdm(self.si.statesdm)
 
+    def use_all_states(self):
+        BuilderBase.use_all_states(self)
+        self.si_elph.set_statesdm(self.si.statesdm)
+
     def remove_fock_states(self, lin_state_indices):
         BuilderBase.remove_fock_states(self, lin_state_indices)
         self.baths._init_coupling()
-- 
2.43.0


From 712afd3d68a5245c56e6f75d16eb36a39d96a8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 11/28] fix: many-body input with any charge offset and state
 order

Particle numbers were used as list indices, the quantum numbers and charge
lists stayed those of the empty single-particle model, the phonon indexing
was never told about the states, and the arrays of the caller were stored
and overwritten.
---
 qmeq/builder/builder_base.py | 28 ++++++++++++-----------
 qmeq/builder/builder_elph.py | 10 ++++++---
 qmeq/indexing.py             | 43 +++++++++++++++++++++++++++---------
 3 files changed, 55 insertions(+), 26 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index c8e0ff3..e25650a 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -3,11 +3,10 @@
 import copy
 import numpy as np
 
-from ..wrappers.mytypes import longnp
-
 from ..approach.aprclass import Approach
 from ..indexing import StateIndexingDM
 from ..indexing import StateIndexingDMc
+from ..indexing import make_quantum_numbers
 from ..qdot import QuantumDot
 from ..leadstun import LeadsTunneling
 from .funcprop import FunctionProperties
@@ -336,8 +335,9 @@ class BuilderManyBody(BuilderBase):
 
         self._init_state_indexing(Na, Ea)
 
-        self.qd.Ea = Ea
-        self.leads.Tba = Tba
+        # Use copies, so that the arrays given by the caller stay as they are
+        self.qd.Ea = np.array(Ea, dtype=float) if Ea is not None else None
+        self.leads.Tba = np.array(Tba) if Tba is not None else None
 
     def _init_state_indexing(self, Na, Ea):
         Na = np.array(Na, dtype=int)
@@ -345,15 +345,17 @@ class BuilderManyBody(BuilderBase):
         ncharge = nmax-nmin+1
         nmany = len(Ea) if Ea is not None else 0
 
-        statesdm = [[] for _ in range(ncharge)]
+        # The charge is counted from the smallest particle number
+        chargelst = [[] for _ in range(ncharge)]
         for i in range(nmany):
-            statesdm[Na[i]].append(i)
+            chargelst[Na[i]-nmin].append(i)
 
+        si = self.si
         self.Na = Na
-        self.si.nmany = nmany
-        self.si.ncharge = ncharge
-        self.si.shiftlst0 = np.zeros(ncharge+1, dtype=longnp)
-        self.si.shiftlst1 = np.zeros(ncharge, dtype=longnp)
-        self.si.lenlst = np.zeros(ncharge, dtype=longnp)
-        self.si.dictdm = np.zeros(nmany, dtype=longnp)
-        self.si.set_statesdm(statesdm)
+        si.nmany, si.nmany_ = nmany, nmany
+        si.ncharge = ncharge
+        si.chargelst = chargelst
+        si.qn_ind, si.ind_qn = make_quantum_numbers(si)
+        si.states_order = list(range(nmany))
+        si.set_size()
+        si.set_statesdm(chargelst)
diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index b5486cc..dbd1c7c 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -1,5 +1,7 @@
 """Module containing Builder_elph and Builder_many_body_elph classes."""
 
+import numpy as np
+
 from .builder_base import BuilderBase
 from .builder_base import attribute_map
 from .builder_base import BuilderManyBody
@@ -187,7 +189,9 @@ class BuilderManyBodyElPh(BuilderElPh, BuilderManyBody):
             indexing='charge')
 
         self._init_state_indexing(Na, Ea)
+        self.si_elph.copy_states(self.si)
 
-        self.qd.Ea = Ea
-        self.leads.Tba = Tba
-        self.baths.Vbbp = Vbbp
+        # Use copies, so that the arrays given by the caller stay as they are
+        self.qd.Ea = np.array(Ea, dtype=float) if Ea is not None else None
+        self.leads.Tba = np.array(Tba) if Tba is not None else None
+        self.baths.Vbbp = np.array(Vbbp) if Vbbp is not None else None
diff --git a/qmeq/indexing.py b/qmeq/indexing.py
index 8f6e104..4a0363d 100644
--- a/qmeq/indexing.py
+++ b/qmeq/indexing.py
@@ -1,5 +1,6 @@
 """Module for indexing many-body states using Lin tables."""
 
+import copy
 import itertools
 
 import numpy as np
@@ -672,6 +673,35 @@ class StateIndexing(object):
 
         self.states_changed = True
 
+    def set_size(self):
+        """
+        Allocates the arrays used for density-matrix element indexing,
+        which have sizes given by the number of charges and many-body states.
+        """
+        self.shiftlst0 = np.zeros(self.ncharge+1, dtype=longnp)
+        self.shiftlst1 = np.zeros(self.ncharge, dtype=longnp)
+        self.lenlst = np.zeros(self.ncharge, dtype=longnp)
+        self.dictdm = np.zeros(self.nmany, dtype=longnp)
+
+    def copy_states(self, si):
+        """
+        Copies the many-body states, their labels, and the states
+        and coherences considered in calculations from other object.
+
+        Parameters
+        ----------
+        si : StateIndexing
+            StateIndexing, StateIndexingDM, etc. object.
+        """
+        for name in ('nsingle', 'nsingle_sym', 'indexing', 'symmetry', 'ncharge',
+                     'nmany', 'nmany_', 'nleads', 'nleads_sym', 'nbaths', 'i', 'j',
+                     'chargelst', 'chargelst_lin', 'szlst', 'szlst_lin', 'ssqlst',
+                     'qn_ind', 'ind_qn', 'states_order', 'removed_fock_states'):
+            setattr(self, name, copy.deepcopy(getattr(si, name)))
+        self.set_size()
+        self.set_statesdm(si.statesdm)
+        self.remove_coherences(si.removed_coherences)
+
     def remove_coherences(self, pairs):
         """
         Remove coherences between the states given in pairs.
@@ -725,8 +755,7 @@ class StateIndexingPauli(StateIndexing):
             String determining that the states will be augmented by the symmetry.
         """
         StateIndexing.__init__(self, nsingle, indexing, symmetry, nleads)
-        self.shiftlst0 = np.zeros(self.ncharge+1, dtype=longnp)
-        self.dictdm = np.zeros(self.nmany, dtype=longnp)
+        self.set_size()
         self.statesdm = None
         self.mapdm0, self.booldm0 = None, None
         self.set_statesdm(self.chargelst)
@@ -902,10 +931,7 @@ class StateIndexingDM(StateIndexing):
         self.ndm0_tot = int(factorial(2*self.nsingle)/factorial(self.nsingle)**2)
         self.ndm1_tot = int(self.nsingle/(self.nsingle+1)*self.ndm0_tot)
         #
-        self.shiftlst0 = np.zeros(self.ncharge+1, dtype=longnp)
-        self.shiftlst1 = np.zeros(self.ncharge, dtype=longnp)
-        self.lenlst = np.zeros(self.ncharge, dtype=longnp)
-        self.dictdm = np.zeros(self.nmany, dtype=longnp)
+        self.set_size()
         #
         self.statesdm, self.mapdm0, self.mapdm1 = None, None, None
         self.set_statesdm(self.chargelst)
@@ -1109,10 +1135,7 @@ class StateIndexingDMc(StateIndexing):
         self.ndm0_tot = int(factorial(2*self.nsingle)/factorial(self.nsingle)**2)
         self.ndm1_tot = int(self.nsingle/(self.nsingle+1)*self.ndm0_tot)
         #
-        self.shiftlst0 = np.zeros(self.ncharge+1, dtype=longnp)
-        self.shiftlst1 = np.zeros(self.ncharge, dtype=longnp)
-        self.lenlst = np.zeros(self.ncharge, dtype=longnp)
-        self.dictdm = np.zeros(self.nmany, dtype=longnp)
+        self.set_size()
         #
         self.statesdm, self.mapdm0, self.mapdm1 = None, None, None
         self.set_statesdm(self.chargelst)
-- 
2.43.0


From 0b071b5dccb275d3393ae6b0e90bb91bb32ea389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 12/28] fix: phonon jump term of the compiled Lindblad approach
 uses both states of the coherence

---
 qmeq/approach/elph/c_lindblad.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/approach/elph/c_lindblad.pyx b/qmeq/approach/elph/c_lindblad.pyx
index 876a824..4779640 100644
--- a/qmeq/approach/elph/c_lindblad.pyx
+++ b/qmeq/approach/elph/c_lindblad.pyx
@@ -126,7 +126,7 @@ cdef class ApproachLindblad(ApproachElPh):
                 fct_aap = 0
                 for l in range(nbaths):
                     for q in range(2):
-                        fct_aap += tLbbp[l, b, a, q]*tLbbp[l, bp, a, q].conjugate()
+                        fct_aap += tLbbp[l, b, a, q]*tLbbp[l, bp, ap, q].conjugate()
                 kh.set_matrix_element(1j*fct_aap, b, bp, bcharge, a, ap, acharge)
         # --------------------------------------------------
         for i in range(bcount):
-- 
2.43.0


From 27da6a123694a7b86457c1ab2255a6a138cca93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 13/28] fix: RTD energy current weighs every state with its own
 energy when states are removed or reordered

---
 qmeq/approach/base/RTD.py    | 17 ++++++++++++++++-
 qmeq/approach/base/c_RTD.pyx |  2 +-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index a5d1a10..be03be0 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -191,6 +191,21 @@ class ApproachPyRTD(Approach):
                     charge_lst.append(2 * charge)
         self.LN = np.array(charge_lst)
 
+    def generate_LE(self):
+        """Generates the diagonal of :math:`L_H^+` in the order of the entries of phi0.
+
+        Returns
+        -------
+        ndarray
+            Twice the energy of every many-body state in phi0. The array has npauli entries.
+        """
+        LE = np.zeros(self.si.npauli, dtype=doublenp)
+        for charge in range(self.si.ncharge):
+            for a in self.si.statesdm[charge]:
+                if self.si.get_ind_dm0(a, a, charge, 2):
+                    LE[self.si.get_ind_dm0(a, a, charge)] = 2 * self.qd.Ea[a]
+        return LE
+
     def generate_current(self):
         r""" Calculates currents for the RTD approach.
 
@@ -213,7 +228,7 @@ class ApproachPyRTD(Approach):
         """
         kh = self.kernel_handler
         nleads = self.si.nleads
-        LE = 2 * self.qd.Ea
+        LE = self.generate_LE()
 
         current = np.zeros(nleads, dtype=doublenp)
         energy_current = np.zeros(nleads, dtype=doublenp)
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 65515dd..d87899a 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -263,7 +263,7 @@ cdef class ApproachRTD(Approach):
         LE = np.zeros(kh.npauli, dtype=doublenp)
 
         for i in range(kh.npauli):
-            LE[i] = 2.0 * Ea[i]
+            LE[i] = 2.0 * Ea[kh.all_bbp[i, 0]]
 
         for l in range(nleads):
             current[l] = 0.5 * np.dot(self.LN, np.dot(kh.Wdd.base[l, :, :], self.phi0))
-- 
2.43.0


From 3d48929f4ce94e75d3fba6bf32a4c08597442187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 14/28] fix: switching kerntype keeps state restrictions and
 accepts compiled Approach classes

---
 qmeq/builder/builder_base.py | 57 +++++++++++++++++++++++-------------
 qmeq/builder/builder_elph.py | 16 ++++++----
 2 files changed, 48 insertions(+), 25 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index e25650a..f89a0e5 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -22,6 +22,7 @@ from .various import use_all_states
 
 from .validation import validate_kerntype
 from .validation import validate_itype
+from .validation import validate_mfreeq
 from .validation import validate_indexing
 
 # -----------------------------------------------------------
@@ -37,6 +38,7 @@ from ..approach.base.RTD import ApproachPyRTD as ApproachPyRTD
 # Cython compiled modules
 
 try:
+    from ..approach.c_aprclass import Approach as ApproachCompiled
     from ..approach.base.c_pauli import ApproachPauli
     from ..approach.base.c_lindblad import ApproachLindblad
     from ..approach.base.c_redfield import ApproachRedfield
@@ -45,6 +47,7 @@ try:
     from ..approach.base.c_RTD import ApproachRTD
 except ImportError as ie:
     print("WARNING: Cannot import Cython compiled modules for the approaches (builder_base.py).")
+    ApproachCompiled = Approach
     ApproachPauli = ApproachPyPauli
     ApproachLindblad = ApproachPyLindblad
     ApproachRedfield = ApproachPyRedfield
@@ -108,23 +111,28 @@ class BuilderBase(object):
 
     def _init_validate_data(self):
         data = self.data
-        data.itype = validate_itype(data.itype, data.kerntype)
         data.kerntype = validate_kerntype(data.kerntype)
+        # The name of the approach, when kerntype is an Approach class
+        kerntype = getattr(data.kerntype, 'kerntype', data.kerntype)
+        data.itype = validate_itype(data.itype, kerntype)
+        data.mfreeq = validate_mfreeq(kerntype, data.mfreeq)
         data.indexing, data.symmetry = validate_indexing(data.indexing,
                                           data.symmetry,
-                                          data.kerntype)
+                                          kerntype)
 
     def _init_set_globals(self):
         self.globals = globals()
 
     def _init_set_approach_class(self):
-        kerntype = self.data.kerntype
+        self.Approach = self.get_approach_class(self.data.kerntype)
+
+    def get_approach_class(self, kerntype):
         if isinstance(kerntype, str):
             approach_string = kerntype[0].capitalize() + kerntype[1:]
-            self.Approach = self.globals['Approach'+approach_string]
-        elif issubclass(kerntype, Approach):
-            self.Approach = kerntype
-            self.kerntype = self.Approach.kerntype
+            return self.globals['Approach'+approach_string]
+        elif issubclass(kerntype, (Approach, ApproachCompiled)):
+            return kerntype
+        raise TypeError('kerntype has to be a string or an Approach class.')
 
     def _init_create_setup(self):
         data = self.data
@@ -163,11 +171,22 @@ class BuilderBase(object):
     def change_si(self):
         si = self.si
         icn = self.Approach.indexing_class_name
+        indexing, _ = validate_indexing(si.indexing, si.symmetry, self.Approach.kerntype)
         # noinspection PyTypeHints
-        if not isinstance(si, self.globals[icn]):
-            self.si = self.globals[icn](si.nsingle, si.indexing, si.symmetry, si.nleads)
+        if not isinstance(si, self.globals[icn]) or indexing != si.indexing:
+            self.si = self.globals[icn](si.nsingle, indexing, si.symmetry)
             self.qd.si = self.si
             self.leads.si = self.si
+            if indexing == si.indexing:
+                self.si.copy_states(si)
+            else:
+                # The states have other labels now, so start anew from the Fock states
+                self.si.nleads, self.si.nleads_sym = si.nleads, si.nleads_sym
+                self.si.nbaths = si.nbaths
+                if si.removed_fock_states is not None:
+                    self.si.remove_fock_states(np.flatnonzero(si.removed_fock_states))
+                self.qd._init_hamiltonian()
+                self.leads._init_coupling()
         self.si.states_changed = True
 
     # kerntype
@@ -175,17 +194,15 @@ class BuilderBase(object):
         return self.appr.kerntype
 
     def set_kerntype(self, value):
-        if isinstance(value, str):
-            if self.appr.kerntype != value:
-                approach_string = value[0].capitalize() + value[1:]
-                self.Approach = self.globals['Approach'+approach_string]
-                self.change_si()
-                self.appr = self.Approach(self)
-        else:
-            if issubclass(value, Approach):
-                self.Approach = value
-                self.change_si()
-                self.appr = self.Approach(self)
+        approach = self.get_approach_class(value)
+        if isinstance(value, str) and approach is self.Approach:
+            return
+        self.Approach = approach
+        kerntype = approach.kerntype
+        self.funcp.itype = validate_itype(self.funcp.itype, kerntype)
+        self.funcp.mfreeq = validate_mfreeq(kerntype, self.funcp.mfreeq)
+        self.change_si()
+        self.appr = self.Approach(self)
     kerntype = property(get_kerntype, set_kerntype)
 
     # indexing
diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index dbd1c7c..1643505 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -39,7 +39,7 @@ except ImportError:
 
 attribute_map_elph = dict(
     # StateIndexing
-    baths='si', velph='baths',
+    nbaths='si', velph='baths',
     # PhononBaths
     tlst_ph='baths', dlst_ph='baths',
     Vbbp='baths', bath_func='baths',
@@ -113,14 +113,19 @@ class BuilderElPh(BuilderBase):
         self.create_si_elph()
 
     def change_si(self):
+        indexing = self.si.indexing
         BuilderBase.change_si(self)
+        self.baths.si = self.si
+        if self.si.indexing != indexing:
+            self.baths._init_coupling()
         self.create_si_elph()
 
     def create_si_elph(self):
         si = self.si
-        si_elph = StateIndexingDMc(si.nsingle, si.indexing,
-                                   si.symmetry, si.nleads)
-        si_elph.nbaths = si.nbaths
+        si_elph = StateIndexingDMc(si.nsingle, si.indexing, si.symmetry)
+        si_elph.copy_states(si)
+        # All pairs of states are necessary for the phonon transitions
+        si_elph.set_statesdm(si.statesdm)
         self.si_elph = si_elph
 
     def add(self,
@@ -189,7 +194,8 @@ class BuilderManyBodyElPh(BuilderElPh, BuilderManyBody):
             indexing='charge')
 
         self._init_state_indexing(Na, Ea)
-        self.si_elph.copy_states(self.si)
+        self.create_si_elph()
+        self.appr.si_elph = self.si_elph
 
         # Use copies, so that the arrays given by the caller stay as they are
         self.qd.Ea = np.array(Ea, dtype=float) if Ea is not None else None
-- 
2.43.0


From d271aebf00e1fd2da744aa2068d8efe7364ea28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 15/28] fix: compiled approaches read the lead, dot and bath
 parameters of every solve

---
 qmeq/approach/base/c_RTD.pyx      | 16 ++++++----------
 qmeq/approach/base/c_lindblad.pyx |  3 +--
 qmeq/approach/base/c_neumann2.pyx |  4 ++--
 qmeq/approach/c_aprclass.pxd      |  2 ++
 qmeq/approach/c_aprclass.pyx      | 28 ++++++++++++++++++----------
 qmeq/approach/elph/c_lindblad.pyx |  5 ++---
 6 files changed, 31 insertions(+), 27 deletions(-)

diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index d87899a..69b1799 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -70,6 +70,11 @@ cdef class ApproachRTD(Approach):
         ApproachPyRTD.restart(self)
 
 
+    cdef void set_parameters(self):
+        Approach.set_parameters(self)
+        self._tleads_array = np.asarray(self.leads.tleads_array, dtype=complexnp)
+
+
     cdef void prepare_arrays(self):
         ApproachPy.prepare_arrays(self)
         cdef KernelHandlerRTD kh = self._kernel_handler
@@ -121,15 +126,6 @@ cdef class ApproachRTD(Approach):
         self._energy_current = self.energy_current
         self._heat_current = self.heat_current
 
-        self._tlst = self.leads.tlst
-        self._tleads_array = self.leads.tleads_array
-
-        self._mulst = self.leads.mulst
-        self._dlst = self.leads.dlst
-
-        self._Ea = self.qd.Ea
-        self._Tba = self.leads.Tba
-
         self._Wdd = self.Wdd2[0,...]
         self._WE1 = self.WE1
         self._WE2 = self.WE2
@@ -257,7 +253,7 @@ cdef class ApproachRTD(Approach):
         current = self._current
         energy_current = self._energy_current
         heat_current = self._heat_current
-        mulst = self.leads.mulst
+        mulst = self._mulst
         nleads = kh.nleads
         Ea = self._Ea
         LE = np.zeros(kh.npauli, dtype=doublenp)
diff --git a/qmeq/approach/base/c_lindblad.pyx b/qmeq/approach/base/c_lindblad.pyx
index 8da6744..438e624 100644
--- a/qmeq/approach/base/c_lindblad.pyx
+++ b/qmeq/approach/base/c_lindblad.pyx
@@ -38,8 +38,7 @@ cdef class ApproachLindblad(Approach):
 
     cdef void prepare_arrays(self):
         Approach.prepare_arrays(self)
-        Tba, mtype = self.leads.Tba, self.leads.mtype
-        self.tLba = np.zeros(Tba.shape, dtype=mtype)
+        self.tLba = np.zeros(self.leads.Tba.shape, dtype=complexnp)
 
         self._tLba = self.tLba
         self._rez_real = np.zeros(2, dtype=doublenp)
diff --git a/qmeq/approach/base/c_neumann2.pyx b/qmeq/approach/base/c_neumann2.pyx
index ec8209f..63217da 100644
--- a/qmeq/approach/base/c_neumann2.pyx
+++ b/qmeq/approach/base/c_neumann2.pyx
@@ -107,8 +107,8 @@ cdef class TermsCalculator2vN:
         self.Ek_grid = self.appr.Ek_grid
         self.Ek_grid_ext = self.appr.Ek_grid_ext
 
-        self.Ea = self.appr.qd.Ea
-        self.Tba = self.appr.leads.Tba
+        self.Ea = np.asarray(self.appr.qd.Ea, dtype=doublenp)
+        self.Tba = np.asarray(self.appr.leads.Tba, dtype=complexnp)
 
         self.fkp = self.appr.fkp
         self.fkm = self.appr.fkm
diff --git a/qmeq/approach/c_aprclass.pxd b/qmeq/approach/c_aprclass.pxd
index 1cd4ba8..aafbb78 100644
--- a/qmeq/approach/c_aprclass.pxd
+++ b/qmeq/approach/c_aprclass.pxd
@@ -60,6 +60,8 @@ cdef class Approach:
 
     cpdef void prepare_kern(self)
 
+    cdef void set_parameters(self)
+
     cdef void prepare_arrays(self)
 
     cdef void clean_arrays(self)
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 7274314..a9bf480 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -102,6 +102,8 @@ cdef class Approach:
         return ApproachPy.get_kern_size(self)
 
     cpdef void prepare_kern(self):
+        self.set_parameters()
+
         if self.is_prepared and not self.si.states_changed:
             self.clean_arrays()
             return
@@ -117,6 +119,15 @@ cdef class Approach:
         self.si.states_changed = False
         self.is_prepared = True
 
+    cdef void set_parameters(self):
+        # The attributes may have been replaced by other arrays or lists since the last solution
+        self._tlst = np.asarray(self.leads.tlst, dtype=doublenp)
+        self._mulst = np.asarray(self.leads.mulst, dtype=doublenp)
+        self._dlst = np.asarray(self.leads.dlst, dtype=doublenp)
+
+        self._Ea = np.asarray(self.qd.Ea, dtype=doublenp)
+        self._Tba = np.asarray(self.leads.Tba, dtype=complexnp)
+
     cdef void clean_arrays(self):
 
         if not self._mfreeq:
@@ -141,13 +152,6 @@ cdef class Approach:
         self._energy_current = self.energy_current
         self._heat_current = self.heat_current
 
-        self._tlst = self.leads.tlst
-        self._mulst = self.leads.mulst
-        self._dlst = self.leads.dlst
-
-        self._Ea = self.qd.Ea
-        self._Tba = self.leads.Tba
-
     def prepare_kernel_handler(self):
         if self.funcp.mfreeq:
             self.kernel_handler = KernelHandlerMatrixFree(self.si, self.no_coherences)
@@ -285,10 +289,14 @@ cdef class ApproachElPh(Approach):
 
         self._kernel_handler.elph = self.kernel_handler_elph
 
+    cdef void set_parameters(self):
+        Approach.set_parameters(self)
+        self._tlst_ph = np.asarray(self.baths.tlst_ph, dtype=doublenp)
+        self._dlst_ph = np.asarray(self.baths.dlst_ph, dtype=doublenp)
+        self._Vbbp = np.asarray(self.baths.Vbbp, dtype=complexnp)
+
     cdef void prepare_arrays(self):
-        self._tlst_ph = self.baths.tlst_ph
-        self._dlst_ph = self.baths.dlst_ph
-        self._Vbbp = self.baths.Vbbp
+        pass
 
     cdef void clean_arrays(self):
         pass
diff --git a/qmeq/approach/elph/c_lindblad.pyx b/qmeq/approach/elph/c_lindblad.pyx
index 4779640..aa33f47 100644
--- a/qmeq/approach/elph/c_lindblad.pyx
+++ b/qmeq/approach/elph/c_lindblad.pyx
@@ -43,9 +43,8 @@ cdef class ApproachLindblad(ApproachElPh):
         ApproachElPh.prepare_arrays(self)
         ApproachLindbladBase.prepare_arrays(self)
 
-        Vbbp, mtype = self.baths.Vbbp, self.baths.mtype
-        tLbbp_shape = Vbbp.shape + (2,)
-        self.tLbbp = np.zeros(tLbbp_shape, dtype=mtype)
+        tLbbp_shape = self.baths.Vbbp.shape + (2,)
+        self.tLbbp = np.zeros(tLbbp_shape, dtype=complexnp)
         self.func_pauli_at_zero = np.zeros(self.si.nbaths, dtype=doublenp)
 
         self._tLbbp = self.tLbbp
-- 
2.43.0


From 47012a519852bcd487808fa71d09fe9d51992323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 16/28] fix: changing mfreeq, solmethod, norm_row or
 make_kern_copy between solves

---
 qmeq/approach/aprclass.py    | 16 +++++++++++++---
 qmeq/approach/c_aprclass.pyx | 21 +++++++++++++++++++--
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 98a6ddd..71194df 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -73,6 +73,13 @@ class Approach(object):
         return self.funcp.mfreeq
     @mfreeq.setter
     def mfreeq(self, value):
+        if self.kerntype in ('RTD', 'pyRTD') and value:
+            print("WARNING: mfreeq=True is not supported by the RTD approach. Using default mfreeq=False.")
+            value = False
+        if value == self.funcp.mfreeq:
+            return
+        # Other kernel handler and arrays are necessary
+        self.is_prepared = False
         self.funcp.mfreeq = value
 
     @property
@@ -197,14 +204,17 @@ class Approach(object):
         solmethod = self.funcp.solmethod
         # Determine the proper solution method
         if self.funcp.mfreeq:
-            solmethod = solmethod if solmethod is not None else 'krylov'
+            if solmethod is None or solmethod in ('solve', 'lsqr', 'lsmr'):
+                solmethod = 'krylov'
             self.funcp.solmethod = solmethod
             return
 
         symq = self.funcp.symq
-        if solmethod is None:
+        if solmethod == 'lsmr':
+            solmethod = 'lsqr'
+        if solmethod not in ('solve', 'lsqr'):
             solmethod = 'solve' if symq else 'lsqr'
-        if not symq and solmethod != 'lsqr' and solmethod != 'lsmr':
+        if not symq and solmethod != 'lsqr':
             print("WARNING: Using solmethod=lsqr, because the kernel is not symmetric, symq=False.")
             solmethod = 'lsqr'
 
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index a9bf480..c1e83bd 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -49,7 +49,7 @@ cdef class Approach:
     @mfreeq.setter
     def mfreeq(self, value):
         ApproachPy.mfreeq.fset(self, value)
-        self._mfreeq = value
+        self._mfreeq = self.funcp.mfreeq
 
     @property
     def symq(self):
@@ -86,6 +86,9 @@ cdef class Approach:
         return self._make_kern_copy
     @make_kern_copy.setter
     def make_kern_copy(self, value):
+        if value != self._make_kern_copy:
+            # The solver has to be set up again
+            self.is_prepared = False
         self._make_kern_copy = value
 
     #endregion Properties
@@ -162,7 +165,8 @@ cdef class Approach:
 
     def prepare_solver(self):
         ApproachPy.prepare_solver(self)
-        if self.funcp.mfreeq:
+        # The solver is set up together with the kernel
+        if self.funcp.mfreeq or self.kern is None:
             return
 
         solmethod = self.funcp.solmethod
@@ -214,6 +218,11 @@ cdef class Approach:
 
     cpdef generate_vec(self, phi0):
         cdef long_t norm_row = self._norm_row
+        cdef long_t size = self._dphi0_dt.shape[0]
+        if norm_row < 0:
+            norm_row += size
+        if norm_row < 0 or norm_row >= size:
+            raise IndexError("norm_row is out of range.")
 
         cdef KernelHandlerMatrixFree kh = self._kernel_handler
         kh.set_phi0(phi0)
@@ -241,6 +250,14 @@ cdef class Approach:
         cdef double_t [:] bvec = self._bvec
 
         cdef long_t norm_row = self._norm_row if self._symq else kern.shape[0] - 1
+        if norm_row < 0:
+            norm_row += kern.shape[0]
+        if norm_row < 0 or norm_row >= kern.shape[0]:
+            self.funcp.print_error("norm_row is out of range.")
+            self._phi0[::1] = 0.0
+            self._success = False
+            return
+
         kern[norm_row, :] = self._norm_vec
         bvec[norm_row] = 1
 
-- 
2.43.0


From 1017d1243b0f0bc4eaf89bb42dde1a949432fa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 17/28] fix: off_diag_corrections can be changed between solves
 of the RTD approach

---
 qmeq/approach/base/RTD.py       |  8 +++++++-
 qmeq/approach/base/c_RTD.pyx    | 15 ++++++++++++---
 qmeq/approach/kernel_handler.py |  3 +++
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index be03be0..2b71205 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -47,6 +47,13 @@ class ApproachPyRTD(Approach):
     def prepare_kernel_handler(self):
         self.kernel_handler = KernelHandlerRTD(self.si)
 
+    def prepare_kern(self):
+        if self.off_diag_corrections != self.funcp.off_diag_corrections:
+            # The arrays for the corrections are allocated only when necessary
+            self.off_diag_corrections = self.funcp.off_diag_corrections
+            self.is_prepared = False
+        Approach.prepare_kern(self)
+
     def prepare_arrays(self):
         Approach.prepare_arrays(self)
 
@@ -120,7 +127,6 @@ class ApproachPyRTD(Approach):
         """
         si, kh = self.si, self.kernel_handler
         ncharge, statesdm = si.ncharge, si.statesdm
-        self.off_diag_corrections = self.funcp.off_diag_corrections
 
         if (not np.all(np.isclose(self.leads.tlst, self.leads.tlst[0]))) or np.any(abs(self.leads.Tba.imag)>0):
             self.set_Ozaki_params()
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 69b1799..f2cd054 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -53,6 +53,7 @@ cdef class ApproachRTD(Approach):
         Approach.__init__(self, *args)
         self.BW_Ozaki_expansion = 0
         self.Ozaki_poles_and_residues = np.zeros((2,2), doublenp)
+        self.off_diag_corrections = self.funcp.off_diag_corrections
         self.ImGamma = False
         self.printed_warning_ImGamma = False
         self.nsingle_warning_printed = False
@@ -66,6 +67,14 @@ cdef class ApproachRTD(Approach):
         self._kernel_handler = self.kernel_handler
 
 
+    cpdef void prepare_kern(self):
+        if self.off_diag_corrections != self.funcp.off_diag_corrections:
+            # The arrays for the corrections are allocated only when necessary
+            self.off_diag_corrections = self.funcp.off_diag_corrections
+            self.is_prepared = False
+        Approach.prepare_kern(self)
+
+
     def restart(self):
         ApproachPyRTD.restart(self)
 
@@ -95,7 +104,7 @@ cdef class ApproachRTD(Approach):
 
         self.generate_LN()
 
-        if self.funcp.off_diag_corrections:
+        if self.off_diag_corrections:
             kern_size2 = 2 * kh.ndm0 - 2 * kh.npauli
             self.ReWnd = np.zeros((kern_size2, kern_size), dtype=self.dtype, order='F')
             self.ImWnd = np.zeros((kern_size2, kern_size), dtype=self.dtype, order='F')
@@ -154,7 +163,7 @@ cdef class ApproachRTD(Approach):
         self._WE2[::1] = 0.0
         self._Wdd2[::1] = 0.0
 
-        if self.funcp.off_diag_corrections:
+        if self.off_diag_corrections:
             self._ReWnd[::1] = 0.0
             self._ImWnd[::1] = 0.0
             self._ReWdn[::1] = 0.0
@@ -169,7 +178,7 @@ cdef class ApproachRTD(Approach):
         cdef long_t kern_size = self.get_kern_size()
         cdef long_t[:,:] statesdm = kh.statesdm
         cdef double_t[:] tlst = self._tlst
-        cdef bool_t off_diag_corrections = self.funcp.off_diag_corrections
+        cdef bool_t off_diag_corrections = self.off_diag_corrections
 
         if np.any(abs(self.leads.Tba.imag)>0):
             self.set_Ozaki_params()
diff --git a/qmeq/approach/kernel_handler.py b/qmeq/approach/kernel_handler.py
index c230b25..cf6ada8 100644
--- a/qmeq/approach/kernel_handler.py
+++ b/qmeq/approach/kernel_handler.py
@@ -255,6 +255,9 @@ class KernelHandlerMatrixFree(KernelHandler):
 class KernelHandlerRTD(KernelHandler):
     """Class used for inserting matrix elements into the matrices used in the RTD approach."""
 
+    # The matrices for the off-diagonal corrections are set only when necessary
+    ReWdn, ImWdn, ReWnd, ImWnd, Lnn = None, None, None, None, None
+
     def set_matrix_list(self):
         self.mats = [self.Wdd, self.WE1, self.WE2, self.ReWdn, self.ImWdn, self.ReWnd, self.ImWnd, self.Lnn]
 
-- 
2.43.0


From 7f5c690d8056f6511a89ed296dee39724398f3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 18/28] fix: RTD result does not depend on the temperatures of
 earlier solves

---
 qmeq/approach/base/RTD.py    | 2 +-
 qmeq/approach/base/c_RTD.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index 2b71205..c3f7989 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -950,7 +950,7 @@ class ApproachPyRTD(Approach):
             and the second columns contains the residues.
         """
         BW_T = (abs(self.leads.dlst[0][0]) + abs(self.leads.dlst[0][1])) / 2.0 / min(self.leads.tlst)
-        if self.BW_Ozaki_expansion < BW_T:
+        if self.BW_Ozaki_expansion != BW_T:
             self.Ozaki_poles_and_residues = BW_Ozaki(BW_T)
             self.BW_Ozaki_expansion = BW_T
 
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index f2cd054..c67702a 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -972,6 +972,6 @@ cdef class ApproachRTD(Approach):
 
         cdef double_t BW_T = (abs(self.leads.dlst[0][0]) + abs(self.leads.dlst[0][1])) / 2.0 / min(self.leads.tlst)
 
-        if self.BW_Ozaki_expansion < BW_T:
+        if self.BW_Ozaki_expansion != BW_T:
             self.Ozaki_poles_and_residues = BW_Ozaki(BW_T)
             self.BW_Ozaki_expansion = BW_T
\ No newline at end of file
-- 
2.43.0


From d639e59d1ab0d3603274d0abbcd322466a0e042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 19/28] fix: bose and diff_fermi of large arguments with
 sign=-1

---
 qmeq/specfunc/c_specfunc.pyx | 4 ++--
 qmeq/specfunc/specfunc.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmeq/specfunc/c_specfunc.pyx b/qmeq/specfunc/c_specfunc.pyx
index 50d31bc..26c78dd 100644
--- a/qmeq/specfunc/c_specfunc.pyx
+++ b/qmeq/specfunc/c_specfunc.pyx
@@ -100,7 +100,7 @@ cdef double_t fermi_func(double_t x) nogil:
 @cython.cdivision(True)
 cdef double_t diff_fermi(double_t x, double_t sign=1) nogil:
     """Calculates the derivative of the Fermi function."""
-    if x > 354.885:
+    if fabs(x) > 354.885:
         return 0.0
     cdef double_t e = exp(sign*x)
     return -sign*e / ((e + 1.0)**2)
@@ -109,7 +109,7 @@ cdef double_t diff_fermi(double_t x, double_t sign=1) nogil:
 @cython.cdivision(True)
 cdef double_t bose(double_t x, double_t sign=1) nogil:
     """Calculates the Bose distribution function at x."""
-    if x > 709.77: #To avoid overflow in the denominator.
+    if sign*x > 709.77: #To avoid overflow in the denominator.
         return 0.0
     cdef double_t e = exp( sign * x )
     return 1.0 / (e - 1.0)
diff --git a/qmeq/specfunc/specfunc.py b/qmeq/specfunc/specfunc.py
index 6b9f7de..30f9e57 100644
--- a/qmeq/specfunc/specfunc.py
+++ b/qmeq/specfunc/specfunc.py
@@ -213,7 +213,7 @@ def diff_fermi(x, sign=1):
     double
         The function value
     """
-    if x > 709.77 / 2:  # To avoid overflow in the denominator
+    if abs(x) > 709.77 / 2:  # To avoid overflow in the denominator
         return 0.0
     e = np.exp(sign * x)
     return -sign * e / ((e + 1.0) ** 2)
@@ -234,7 +234,7 @@ def bose(x, sign=1):
     double
         The function value
     """
-    if x > 709.77:  # To avoid overflow in the denominator
+    if sign * x > 709.77:  # To avoid overflow in the denominator
         return 0.0
     e = np.exp(sign * x)
     return 1 / (e - 1)
-- 
2.43.0


From b7880dfda7720aeb5c8a58bac5981326143429e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 20/28] fix: RTD integrals do not depend on rounding noise in
 the imaginary part of the amplitudes

---
 qmeq/approach/base/RTD.py    | 32 ++++++++++++++++----------------
 qmeq/approach/base/c_RTD.pyx | 32 ++++++++++++++++----------------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index c3f7989..2a9e38a 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -542,10 +542,10 @@ class ApproachPyRTD(Approach):
                         t2X = t1 * Tba[r0, a2p, a3p].conj() * Tba[r1, a3p, a0].conj()
                         E3 = E[a3p] - E[a0]
                         if abs(t2D) > t_cutoff3:
-                            tempD = t2D * integralD(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag)>t_cutoff3)
+                            tempD = t2D * integralD(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag) > 1e-10*abs(t2D))
                             kh.add_element_2nd_order(r0, tempD.real, indx0, indx1, a3p, charge + 1, a0, charge)
                         if abs(t2X) > t_cutoff3:
-                            tempX = -t2X * integralX(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag)>t_cutoff3)
+                            tempX = -t2X * integralX(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag) > 1e-10*abs(t2X))
                             kh.add_element_2nd_order(r1, tempX.real, indx0, indx1, a3p, charge + 1, a0, charge)
                     #p2 = -1
                     #N3 = ( N0 +1, N0 + 2)
@@ -555,10 +555,10 @@ class ApproachPyRTD(Approach):
                         t2X = t1 * Tba[r0, a3m, a0].conj() * Tba[r1, a2p, a3m].conj()
                         E3 = E[a2p] - E[a3m]
                         if abs(t2D) > t_cutoff3:
-                            tempD = t2D * integralD(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag)>t_cutoff3)
+                            tempD = t2D * integralD(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag) > 1e-10*abs(t2D))
                             kh.add_element_2nd_order(r0, tempD.real, indx0, indx1, a2p, charge + 2, a3m, charge + 1)
                         if abs(t2X) > t_cutoff3:
-                            tempX = -t2X * integralX(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag)>t_cutoff3)
+                            tempX = -t2X * integralX(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag) > 1e-10*abs(t2X))
                             kh.add_element_2nd_order(r1, tempX.real, indx0, indx1, a2p, charge + 2, a3m, charge+1)
                 #p1 = -1
                 #N2 = ( N0 - 1, N0 + 1 ), a2+ = a1+
@@ -575,10 +575,10 @@ class ApproachPyRTD(Approach):
                         t2X = t1 * Tba[r0, a1p, a3p].conj() * Tba[r1, a3p, a2m].conj()
                         E3 = E[a3p] - E[a2m]
                         if abs(t2D) > t_cutoff3:
-                            tempD = t2D * integralD(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag)>t_cutoff3)
+                            tempD = t2D * integralD(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag) > 1e-10*abs(t2D))
                             kh.add_element_2nd_order(r0, tempD.real, indx0, indx1, a3p, charge, a2m, charge - 1)
                         if abs(t2X) > t_cutoff3:
-                            tempX = -t2X * integralX(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag)>t_cutoff3)
+                            tempX = -t2X * integralX(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag) > 1e-10*abs(t2X))
                             kh.add_element_2nd_order(r1, tempX.real, indx0, indx1, a3p, charge, a2m, charge-1)
                     #p2 = -1
                     #N3 = ( N0 , N0 + 1), a3+ = a2+
@@ -588,10 +588,10 @@ class ApproachPyRTD(Approach):
                         t2X = t1 * Tba[r0, a3m, a2m].conj() * Tba[r1, a1p, a3m].conj()
                         E3 = E[a1p] - E[a3m]
                         if abs(t2D) > t_cutoff3:
-                            tempD = t2D * integralD(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag)>t_cutoff3)
+                            tempD = t2D * integralD(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag) > 1e-10*abs(t2D))
                             kh.add_element_2nd_order(r0, tempD.real, indx0, indx1, a1p, charge + 1, a3m, charge)
                         if abs(t2X) > t_cutoff3:
-                            tempX = -t2X * integralX(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag)>t_cutoff3)
+                            tempX = -t2X * integralX(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag) > 1e-10*abs(t2X))
                             kh.add_element_2nd_order(r1, tempX.real, indx0, indx1, a1p, charge + 1, a3m, charge)
                 #eta1 = -1
                 #p1 = 1
@@ -608,7 +608,7 @@ class ApproachPyRTD(Approach):
                         t2D = t1 * Tba[r1, a3p, a2p] * Tba[r0, a3p, a0].conj()
                         E3 = E[a3p] - E[a0]
                         if abs(t2D) > t_cutoff3:
-                            tempD = t2D * integralD(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag)>t_cutoff3)
+                            tempD = t2D * integralD(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag) > 1e-10*abs(t2D))
                             kh.add_element_2nd_order(r0, tempD.real, indx0, indx1, a3p, charge + 1, a0, charge)
                     #N3 = (N0, N0-1), a3- = a0
                     for a3p in statesdm[charge-1]:
@@ -616,7 +616,7 @@ class ApproachPyRTD(Approach):
                         t2X = t1 * Tba[r0, a2p, a3p].conj() * Tba[r1, a0, a3p]
                         E3 = E[a3p] - E[a0]
                         if abs(t2X) > t_cutoff3:
-                            tempX = -t2X * integralX(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag)>t_cutoff3)
+                            tempX = -t2X * integralX(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag) > 1e-10*abs(t2X))
                             kh.add_element_2nd_order(r1, tempX.real, indx0, indx1, a3p, charge - 1, a0, charge)
                     #p2 = -1
                     #N3 = ( N0-1, N0 ), a3+ = a2+
@@ -625,7 +625,7 @@ class ApproachPyRTD(Approach):
                         t2D = t1 * Tba[r1, a0, a3m] * Tba[r0, a2p, a3m].conj()
                         E3 = E[a2p] - E[a3m]
                         if abs(t2D) > t_cutoff3:
-                            tempD = t2D * integralD(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag)>t_cutoff3)
+                            tempD = t2D * integralD(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag) > 1e-10*abs(t2D))
                             kh.add_element_2nd_order(r0, tempD.real, indx0, indx1, a2p, charge, a3m, charge - 1)
                     #N3 = (N0 + 1, N0)
                     for a3m in statesdm[charge+1]:
@@ -633,7 +633,7 @@ class ApproachPyRTD(Approach):
                         t2X = t1 * Tba[r0, a3m, a0].conj() * Tba[r1, a3m, a2p]
                         E3 = E[a2p] - E[a3m]
                         if abs(t2X) > t_cutoff3:
-                            tempX = -t2X * integralX(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag)>t_cutoff3)
+                            tempX = -t2X * integralX(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag) > 1e-10*abs(t2X))
                             kh.add_element_2nd_order(r1, tempX.real, indx0, indx1, a2p, charge, a3m, charge + 1)
                 #p1 = -1
                 #N2 = ( N0 + 1  , N0 + 1), a2+ = a1+
@@ -647,7 +647,7 @@ class ApproachPyRTD(Approach):
                         t2D = t1 * Tba[r1, a3p, a1p] * Tba[r0, a3p, a2m].conj()
                         E3 = E[a3p] - E[a2m]
                         if abs(t2D) > t_cutoff3:
-                            tempD = t2D * integralD(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag)>t_cutoff3)
+                            tempD = t2D * integralD(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag) > 1e-10*abs(t2D))
                             kh.add_element_2nd_order(r0, tempD.real, indx0, indx1, a3p, charge + 2, a2m, charge + 1)
                     #N3 = ( N0 + 1, N0 )
                     for a3p in statesdm[charge]:
@@ -655,7 +655,7 @@ class ApproachPyRTD(Approach):
                         t2X = t1 * Tba[r0, a1p, a3p].conj() * Tba[r1, a2m, a3p]
                         E3 = E[a3p] - E[a2m]
                         if abs(t2X) > t_cutoff3:
-                            tempX = -t2X * integralX(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag)>t_cutoff3)
+                            tempX = -t2X * integralX(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag) > 1e-10*abs(t2X))
                             kh.add_element_2nd_order(r1, tempX.real, indx0, indx1, a3p, charge, a2m, charge + 1)
                     #p2 = -1
                     #N3 = ( N0, N0+1), a3+ = a2+
@@ -664,7 +664,7 @@ class ApproachPyRTD(Approach):
                         t2D = t1 * Tba[r1, a2m, a3m] * Tba[r0, a1p, a3m].conj()
                         E3 = E[a1p] - E[a3m]
                         if abs(t2D) > t_cutoff3:
-                            tempD = t2D * integralD(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag)>t_cutoff3)
+                            tempD = t2D * integralD(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2D.imag) > 1e-10*abs(t2D))
                             kh.add_element_2nd_order(r0, tempD.real, indx0, indx1, a1p, charge + 1, a3m, charge)
                     #N3 = ( N0 + 2, N0 + 1 ), a3+ = a2+
                     for a3m in statesdm[charge+2]:
@@ -672,7 +672,7 @@ class ApproachPyRTD(Approach):
                         t2X = t1 * Tba[r0, a3m, a2m].conj() * Tba[r1, a3m, a1p]
                         E3 = E[a1p] - E[a3m]
                         if abs(t2X) > t_cutoff3:
-                            tempX = -t2X * integralX(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag)>t_cutoff3)
+                            tempX = -t2X * integralX(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, abs(t2X.imag) > 1e-10*abs(t2X))
                             kh.add_element_2nd_order(r1, tempX.real, indx0, indx1, a1p, charge + 1, a3m, charge + 2)
 
     def generate_col_nondiag_kern_1st_order_dn(self, a1, b1, charge):
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index c67702a..d0cdab4 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -579,11 +579,11 @@ cdef class ApproachRTD(Approach):
                             t2X = t1 * Tba[r0, a2p, a3p].conjugate() * Tba[r1, a3p, a0].conjugate()
                             E3 = E[a3p] - E[a0]
                             if cabs(t2D) > t_cutoff3:
-                                ImGamma = fabs(t2D.imag) > t_cutoff3
+                                ImGamma = fabs(t2D.imag) > 1e-10*cabs(t2D)
                                 tempD = t2D * integralD(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r0, tempD.real, indx0, indx1, a3p, ccharge, a0, bcharge)
                             if cabs(t2X) > t_cutoff3:
-                                ImGamma = fabs(t2X.imag) > t_cutoff3
+                                ImGamma = fabs(t2X.imag) > 1e-10*cabs(t2X)
                                 tempX = -t2X * integralX(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r1, tempX.real, indx0, indx1, a3p, ccharge, a0, bcharge)
                         #p2 = -1
@@ -593,11 +593,11 @@ cdef class ApproachRTD(Approach):
                             t2X = t1 * Tba[r0, a3m, a0].conjugate() * Tba[r1, a2p, a3m].conjugate()
                             E3 = E[a2p] - E[a3m]
                             if cabs(t2D) > t_cutoff3:
-                                ImGamma = fabs(t2D.imag) > t_cutoff3
+                                ImGamma = fabs(t2D.imag) > 1e-10*cabs(t2D)
                                 tempD = t2D * integralD(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r0, tempD.real, indx0, indx1, a2p, dcharge, a3m, ccharge)
                             if cabs(t2X) > t_cutoff3:
-                                ImGamma = fabs(t2X.imag) > t_cutoff3
+                                ImGamma = fabs(t2X.imag) > 1e-10*cabs(t2X)
                                 tempX = -t2X * integralX(1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r1, tempX.real, indx0, indx1, a2p, dcharge, a3m, ccharge)
                     #p1 = -1
@@ -614,11 +614,11 @@ cdef class ApproachRTD(Approach):
                             t2X = t1 * Tba[r0, a1p, a3p].conjugate() * Tba[r1, a3p, a2m].conjugate()
                             E3 = E[a3p] - E[a2m]
                             if cabs(t2D) > t_cutoff3:
-                                ImGamma = fabs(t2D.imag) > t_cutoff3
+                                ImGamma = fabs(t2D.imag) > 1e-10*cabs(t2D)
                                 tempD = t2D * integralD(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r0, tempD.real, indx0, indx1, a3p, bcharge, a2m, acharge)
                             if cabs(t2X) > t_cutoff3:
-                                ImGamma = fabs(t2X.imag) > t_cutoff3
+                                ImGamma = fabs(t2X.imag) > 1e-10*cabs(t2X)
                                 tempX = -t2X * integralX(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r1, tempX.real, indx0, indx1, a3p, bcharge, a2m, acharge)
                         #p2 = -1
@@ -628,11 +628,11 @@ cdef class ApproachRTD(Approach):
                             t2X = t1 * Tba[r0, a3m, a2m].conjugate() * Tba[r1, a1p, a3m].conjugate()
                             E3 = E[a1p] - E[a3m]
                             if cabs(t2D) > t_cutoff3:
-                                ImGamma = fabs(t2D.imag) > t_cutoff3
+                                ImGamma = fabs(t2D.imag) > 1e-10*cabs(t2D)
                                 tempD = t2D * integralD(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r0, tempD.real, indx0, indx1, a1p, ccharge, a3m, bcharge)
                             if cabs(t2X) > t_cutoff3:
-                                ImGamma = fabs(t2X.imag) > t_cutoff3
+                                ImGamma = fabs(t2X.imag) > 1e-10*cabs(t2X)
                                 tempX = -t2X * integralX(-1, 1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r1, tempX.real, indx0, indx1, a1p, ccharge, a3m, bcharge)
                     #eta1 = -1
@@ -648,7 +648,7 @@ cdef class ApproachRTD(Approach):
                             t2D = t1 * Tba[r1, a3p, a2p] * Tba[r0, a3p, a0].conjugate()
                             E3 = E[a3p] - E[a0]
                             if cabs(t2D) > t_cutoff3:
-                                ImGamma = fabs(t2D.imag) > t_cutoff3
+                                ImGamma = fabs(t2D.imag) > 1e-10*cabs(t2D)
                                 tempD = t2D * integralD(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r0, tempD.real, indx0, indx1, a3p, ccharge, a0, bcharge)
                         for k in range(acount):
@@ -656,7 +656,7 @@ cdef class ApproachRTD(Approach):
                             t2X = t1 * Tba[r0, a2p, a3p].conjugate() * Tba[r1, a0, a3p]
                             E3 = E[a3p] - E[a0]
                             if cabs(t2X) > t_cutoff3:
-                                ImGamma = fabs(t2X.imag) > t_cutoff3
+                                ImGamma = fabs(t2X.imag) > 1e-10*cabs(t2X)
                                 tempX = -t2X * integralX(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r1, tempX.real, indx0, indx1, a3p, acharge, a0, bcharge)
                         #p2 = -1
@@ -665,7 +665,7 @@ cdef class ApproachRTD(Approach):
                             t2D = t1 * Tba[r1, a0, a3m] * Tba[r0, a2p, a3m].conjugate()
                             E3 = E[a2p] - E[a3m]
                             if cabs(t2D) > t_cutoff3:
-                                ImGamma = fabs(t2D.imag) > t_cutoff3
+                                ImGamma = fabs(t2D.imag) > 1e-10*cabs(t2D)
                                 tempD = t2D * integralD(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r0, tempD.real, indx0, indx1, a2p, bcharge, a3m, acharge)
                         for k in range(ccount):
@@ -673,7 +673,7 @@ cdef class ApproachRTD(Approach):
                             t2X = t1 * Tba[r0, a3m, a0].conjugate() * Tba[r1, a3m, a2p]
                             E3 = E[a2p] - E[a3m]
                             if cabs(t2X) > t_cutoff3:
-                                ImGamma = fabs(t2X.imag) > t_cutoff3
+                                ImGamma = fabs(t2X.imag) > 1e-10*cabs(t2X)
                                 tempX = -t2X * integralX(1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r1, tempX.real, indx0, indx1, a2p, bcharge, a3m, ccharge)
                     #p1 = -1
@@ -689,7 +689,7 @@ cdef class ApproachRTD(Approach):
                             t2D = t1 * Tba[r1, a3p , a1p] * Tba[r0, a3p, a2m].conjugate()
                             E3 = E[a3p] - E[a2m]
                             if cabs(t2D) > t_cutoff3:
-                                ImGamma = fabs(t2D.imag) > t_cutoff3
+                                ImGamma = fabs(t2D.imag) > 1e-10*cabs(t2D)
                                 tempD = t2D * integralD(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r0, tempD.real, indx0, indx1, a3p, dcharge, a2m, ccharge)
                         for k in range(bcount):
@@ -697,7 +697,7 @@ cdef class ApproachRTD(Approach):
                             t2X = t1 * Tba[r0, a1p, a3p].conjugate() * Tba[r1, a2m, a3p]
                             E3 = E[a3p] - E[a2m]
                             if cabs(t2X) > t_cutoff3:
-                                ImGamma = fabs(t2X.imag) > t_cutoff3
+                                ImGamma = fabs(t2X.imag) > 1e-10*cabs(t2X)
                                 tempX = -t2X * integralX(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r1, tempX.real, indx0, indx1, a3p, bcharge, a2m, ccharge)
                         #p2 = -1
@@ -706,7 +706,7 @@ cdef class ApproachRTD(Approach):
                             t2D = t1 * Tba[r1, a2m, a3m] * Tba[r0, a1p, a3m].conjugate()
                             E3 = E[a1p] - E[a3m]
                             if cabs(t2D) > t_cutoff3:
-                                ImGamma = fabs(t2D.imag) > t_cutoff3
+                                ImGamma = fabs(t2D.imag) > 1e-10*cabs(t2D)
                                 tempD = t2D * integralD(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r0, tempD.real, indx0, indx1, a1p, ccharge, a3m, bcharge)
                         for k in range(dcount):
@@ -714,7 +714,7 @@ cdef class ApproachRTD(Approach):
                             t2X = t1 * Tba[r0, a3m, a2m].conjugate() * Tba[r1, a3m, a1p]
                             E3 = E[a1p] - E[a3m]
                             if cabs(t2X) > t_cutoff3:
-                                ImGamma = fabs(t2X.imag) > t_cutoff3
+                                ImGamma = fabs(t2X.imag) > 1e-10*cabs(t2X)
                                 tempX = -t2X * integralX(-1, -1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma)
                                 kh.add_element_2nd_order(t_id, r1, tempX.real, indx0, indx1, a1p, ccharge, a3m, dcharge)
 
-- 
2.43.0


From 1d6af24b8a1e040fc81d8dbbd1ed4e40a920010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:40 +0000
Subject: [PATCH 21/28] fix: RTD does not report NaN energy currents because of
 an earlier state space

---
 qmeq/approach/base/RTD.py    | 1 +
 qmeq/approach/base/c_RTD.pyx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index 2a9e38a..a7fdac6 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -56,6 +56,7 @@ class ApproachPyRTD(Approach):
 
     def prepare_arrays(self):
         Approach.prepare_arrays(self)
+        self.ImGamma = False
 
         nleads, ndm1 = self.si.nleads, self.si.ndm1
         self.paulifct = np.zeros((nleads, ndm1, 2), dtype=doublenp)
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index d0cdab4..09a0601 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -86,6 +86,7 @@ cdef class ApproachRTD(Approach):
 
     cdef void prepare_arrays(self):
         ApproachPy.prepare_arrays(self)
+        self.ImGamma = False
         cdef KernelHandlerRTD kh = self._kernel_handler
 
         cdef long_t nleads = kh.nleads
-- 
2.43.0


From 179676b39d7ab8b689e2aa8bb36cc2dff2c21fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 22/28] fix: coulomb can be given as a floating point array

---
 qmeq/qdot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index 7ab2f5d..acba38f 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -650,6 +650,8 @@ def make_coulomb_dict(qd, coulomb):
         for j0 in coulomb:
             m, n, k, l, U = j0
             if U != 0:
+                # The labels in a floating point or complex array are not integers
+                m, n, k, l = (int(np.real(j)) for j in (m, n, k, l))
                 coulomb_dict.update({(m, n, k, l): U})
     else:
         return {}
-- 
2.43.0


From ca466e8f213ddfd21a75774dc6c1960e227e5173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 23/28] fix: change() can set a coulomb matrix element given in
 a list to zero

---
 qmeq/qdot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index acba38f..083afeb 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -624,7 +624,7 @@ def make_hsingle_dict(qd, hsingle, add_zeros=False):
         return hsingle_dict
 
 
-def make_coulomb_dict(qd, coulomb):
+def make_coulomb_dict(qd, coulomb, add_zeros=False):
     """
     Makes Coulomb matrix element dictionary.
 
@@ -634,6 +634,8 @@ def make_coulomb_dict(qd, coulomb):
         Contains coulomb matrix elements.
     qd : QuantumDot
         QuantumDot object.
+    add_zeros : bool
+        Flag indicating whether to add zeros to dictionary.
 
     Returns
     -------
@@ -649,7 +651,7 @@ def make_coulomb_dict(qd, coulomb):
         coulomb_dict = {}
         for j0 in coulomb:
             m, n, k, l, U = j0
-            if U != 0:
+            if U != 0 or add_zeros:
                 # The labels in a floating point or complex array are not integers
                 m, n, k, l = (int(np.real(j)) for j in (m, n, k, l))
                 coulomb_dict.update({(m, n, k, l): U})
@@ -839,7 +841,7 @@ class QuantumDot(object):
             The many-body Hamiltonian will be updates in either case.
         """
         hsingle = {} if hsingle is None else make_hsingle_dict(self, hsingle, True)
-        coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb)
+        coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb, True)
         #
         hsingle_add = {}
         coulomb_add = {}
-- 
2.43.0


From 82370d676dcb3d502685732b713324d48ef52c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 24/28] fix: polygamma of arguments with negative real part

---
 qmeq/specfunc/c_specfunc.pyx | 18 +++++++++++-------
 qmeq/specfunc/specfunc.py    | 21 ++++++++++++++-------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/qmeq/specfunc/c_specfunc.pyx b/qmeq/specfunc/c_specfunc.pyx
index 26c78dd..d24d9a9 100644
--- a/qmeq/specfunc/c_specfunc.pyx
+++ b/qmeq/specfunc/c_specfunc.pyx
@@ -296,23 +296,27 @@ cdef complex_t polygamma( complex_t U, long_t K ) nogil:
         H =  H + clog( V )
 
     if X < 0 :
+        # Reflection formula, P = cot(pi*U)
         V =  V * pi
         X = V.real
         Y = V.imag
         A = sin( X )
         B = cos( X )
-        T = tanh( X )
-        P = B - 1j*A*T / (A + 1j*A*T)
+        T = tanh( Y )
+        P = (B - 1j*A*T) / (A + 1j*B*T)
 
+        H = -SGN[ K ]*H
+        H = H + FCT[ K + 1 ]/( U**float(K1) )
         if K == 0 :
-            H = H + 1/ U
             H = H + P*pi
         elif K == 1 :
-            H =  H + 1/( U**2)
-            H = H + (P**2 + 1.0)*9.869604401089358
+            H = H + (P**2 + 1.0)*pi**2
         elif K == 2 :
-            H = H + 1/(U**3)
-            H = H + (P**2 + 1.0)*62.01255336059963
+            H = H + 2.0*P*(P**2 + 1.0)*pi**3
+        elif K == 3 :
+            H = H + (6.0*P**2 + 2.0)*(P**2 + 1.0)*pi**4
+        elif K == 4 :
+            H = H + (24.0*P**3 + 16.0*P)*(P**2 + 1.0)*pi**5
 
     return H
 
diff --git a/qmeq/specfunc/specfunc.py b/qmeq/specfunc/specfunc.py
index 30f9e57..798783b 100644
--- a/qmeq/specfunc/specfunc.py
+++ b/qmeq/specfunc/specfunc.py
@@ -435,23 +435,30 @@ def polygamma(U, K):
         H = H + np.log(V)
 
     if X < 0:
+        # Reflection formula, P = cot(pi*U)
         V = V * PI
         X, Y = V.real, V.imag
         A = np.sin(X)
         B = np.cos(X)
-        T = np.tanh(X)
-        P = B - 1j * A * T / (A + 1j * A * T)
+        T = np.tanh(Y)
+        P = (B - 1j * A * T) / (A + 1j * B * T)
 
+        H *= -SGN[K]
+        H += FCT[K + 1] / (U ** K1)
         if K == 0:
-            H += 1 / U + P * PI
+            H += P * PI
 
         elif K == 1:
-            H += 1 / (U ** 2)
-            H += (P ** 2 + 1.0) * 9.869604401089358
+            H += (P ** 2 + 1.0) * PI ** 2
 
         elif K == 2:
-            H += 1 / (U ** 3)
-            H += (P ** 2 + 1.0) * 62.01255336059963
+            H += 2.0 * P * (P ** 2 + 1.0) * PI ** 3
+
+        elif K == 3:
+            H += (6.0 * P ** 2 + 2.0) * (P ** 2 + 1.0) * PI ** 4
+
+        elif K == 4:
+            H += (24.0 * P ** 3 + 16.0 * P) * (P ** 2 + 1.0) * PI ** 5
 
     return H
 
-- 
2.43.0


From 47a2dd78bc48a7c9d74ce08ff8417d53221fd2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 25/28] fix: mfreeq=True does not break the 2vN approach

---
 qmeq/approach/aprclass.py  | 4 ++--
 qmeq/builder/validation.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 71194df..e8248f3 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -73,8 +73,8 @@ class Approach(object):
         return self.funcp.mfreeq
     @mfreeq.setter
     def mfreeq(self, value):
-        if self.kerntype in ('RTD', 'pyRTD') and value:
-            print("WARNING: mfreeq=True is not supported by the RTD approach. Using default mfreeq=False.")
+        if self.kerntype in ('RTD', 'pyRTD', '2vN', 'py2vN') and value:
+            print("WARNING: mfreeq=True is supported only by the first order approaches. Using default mfreeq=False.")
             value = False
         if value == self.funcp.mfreeq:
             return
diff --git a/qmeq/builder/validation.py b/qmeq/builder/validation.py
index 9135908..5ad1a06 100644
--- a/qmeq/builder/validation.py
+++ b/qmeq/builder/validation.py
@@ -32,8 +32,8 @@ def validate_itype_ph(itype_ph):
     return itype_ph
 
 def validate_mfreeq(kerntype, mfreeq):
-    if mfreeq and kerntype in {'RTD', 'pyRTD'}:
-        print("WARNING: mfreeq=True is not supported by the RTD approach. Using default mfreeq=False.")
+    if mfreeq and kerntype in {'RTD', 'pyRTD', '2vN', 'py2vN'}:
+        print("WARNING: mfreeq=True is supported only by the first order approaches. Using default mfreeq=False.")
         mfreeq = False
     return mfreeq
 
-- 
2.43.0


From 25c8082ddcbcb173f2404981e5aa4d111fe7e314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:04 +0000
Subject: [PATCH 26/28] fix: RTD decides equality of temperatures relative to
 the temperatures, not to 1e-5 energy units

---
 qmeq/specfunc/c_specfunc.pyx | 4 ++--
 qmeq/specfunc/specfunc.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmeq/specfunc/c_specfunc.pyx b/qmeq/specfunc/c_specfunc.pyx
index d24d9a9..01d9a19 100644
--- a/qmeq/specfunc/c_specfunc.pyx
+++ b/qmeq/specfunc/c_specfunc.pyx
@@ -326,7 +326,7 @@ cdef complex_t integralD(double_t p1, double_t eta1, double_t E1, double_t E2, d
             double_t T2, double_t mu1, double_t mu2, double_t D, double_t[:,:] b_and_R, bint ImGamma) nogil:
     cdef complex_t ret
     cdef double_t lambda1, lambda2, lambda3
-    if fabs(T2-T1) < TMIN and not ImGamma:
+    if fabs(T2-T1) < TMIN*max(T1, T2) and not ImGamma:
         lambda1 = (E1 - mu1) / T1
         lambda2 = (E2 - mu1 - eta1 * mu2) / T1
         lambda3 = (E3 - mu1) /T1
@@ -343,7 +343,7 @@ cdef complex_t integralX(double_t p1, double_t eta1, double_t E1, double_t E2, d
             double_t T2, double_t mu1, double_t mu2, double_t D, double_t[:,:] b_and_R, bint ImGamma) nogil:
     cdef complex_t ret
     cdef double_t lambda1, lambda2, lambda3
-    if fabs(T2-T1) < TMIN and not ImGamma:
+    if fabs(T2-T1) < TMIN*max(T1, T2) and not ImGamma:
         lambda1 = (E1 - mu1) / T1
         lambda2 = (E2 - mu1 - eta1 * mu2) / T1
         lambda3 = (E3 - eta1*mu2) /T1
diff --git a/qmeq/specfunc/specfunc.py b/qmeq/specfunc/specfunc.py
index 798783b..b77dcf8 100644
--- a/qmeq/specfunc/specfunc.py
+++ b/qmeq/specfunc/specfunc.py
@@ -500,7 +500,7 @@ def integralD(p1, eta1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma):
     double
         The integral value
     """
-    TMIN = 1e-5
+    TMIN = 1e-5*max(T1, T2)
     if abs(T2-T1) < TMIN and not ImGamma:
         lambda1 = (E1 - mu1) / T1
         lambda2 = (E2 - mu1 - eta1 * mu2) / T1
@@ -549,7 +549,7 @@ def integralX(p1, eta1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma):
         The integral value
     """
 
-    TMIN = 1e-10
+    TMIN = 1e-5*max(T1, T2)
     if abs(T2-T1) < TMIN and not ImGamma:
         lambda1 = (E1 - mu1) / T1
         lambda2 = (E2 - mu1 - eta1 * mu2) / T1
-- 
2.43.0


From 9eacae2d0fe048074310889fec0a2ccbd51acd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:44 +0000
Subject: [PATCH 27/28] fix: measure the smallest energy of an RTD coherence
 relative to the temperatures

The absolute 1e-10 replaced all level splittings of models in small
units (e.g. joules) when the coherences were eliminated.
---
 qmeq/approach/base/RTD.py    | 2 +-
 qmeq/approach/base/c_RTD.pyx | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index a7fdac6..df27cbe 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -927,7 +927,7 @@ class ApproachPyRTD(Approach):
         # Variables names follow Leijnse et al PRB 78, 235424 (2008).
         E = self.qd.Ea
 
-        minE = 1e-10
+        minE = 1e-10*max(self.leads.tlst)
         E1 = E[a1] - E[b1]
         if minE > E1 >= 0:
             E1 = minE
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 09a0601..1410d4e 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -956,9 +956,12 @@ cdef class ApproachRTD(Approach):
 
     cdef void generate_row_inverse_Liouvillian(self, long_t a1, long_t b1, long_t charge, KernelHandlerRTD kh) nogil:
         cdef double_t minE, E1
+        cdef long_t l
         cdef double_t [:] E = self._Ea
 
-        minE = 1e-10
+        minE = 0.0
+        for l in range(kh.nleads):
+            minE = max(minE, 1e-10*self._tlst[l])
         E1 = E[a1] - E[b1]
         if minE > E1 >= 0:
             E1 = minE
-- 
2.43.0


From 598e53d583bfcec966204686e55388af61e5408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:44 +0000
Subject: [PATCH 28/28] fix: compare RTD lead temperatures exactly when
 deciding on Ozaki parameters

np.isclose has an absolute tolerance, so leads with different small
temperatures were evaluated without poles and the solve failed.
---
 qmeq/approach/base/RTD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index df27cbe..84f2772 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -129,7 +129,7 @@ class ApproachPyRTD(Approach):
         si, kh = self.si, self.kernel_handler
         ncharge, statesdm = si.ncharge, si.statesdm
 
-        if (not np.all(np.isclose(self.leads.tlst, self.leads.tlst[0]))) or np.any(abs(self.leads.Tba.imag)>0):
+        if np.any(self.leads.tlst != self.leads.tlst[0]) or np.any(abs(self.leads.Tba.imag)>0):
             self.set_Ozaki_params()
 
         for bcharge in range(ncharge):
-- 
2.43.0

