From 29902fcc71301f7a7663d3299625522d45e55dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:08 +0000
Subject: [PATCH 01/41] fix: detect model changes by value, not by colliding
 hashes

hash(-1.0) == hash(-2.0), so changing an on-site energy or hopping term from
-1 to -2 left the derived arrays of primitive cell and supercell stale.
---
 tbplas/builder/primitive.py | 29 +++++++++++++++++++++--------
 tbplas/builder/super.py     | 17 ++++++++---------
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index 207d0a8..954c803 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -131,23 +131,36 @@ class PrimitiveCell(Observable):
 
     def __hash__(self) -> int:
         """Return the hash of this instance."""
+        return hash(self.get_fingerprint())
+
+    def get_fingerprint(self) -> tuple:
+        """
+        Get the fingerprint of this instance.
+
+        Unlike the hash, different models are guaranteed to have different
+        fingerprints.
+
+        :return: fingerprint of this instance
+        """
         lat_vec = tuple([tuple(_) for _ in self._lat_vec])
-        fp = (lat_vec, tuple(self._origin), tuple(self._orbital_list),
-              self._hopping_dict, self.extended)
-        return hash(fp)
+        return (lat_vec, tuple(self._origin), tuple(self._orbital_list),
+                tuple(self._hopping_dict.to_list()), self.extended)
 
-    def _get_attr_hash(self, attr: str) -> int:
+    def _get_attr_hash(self, attr: str) -> tuple:
         """
-        Get the hash of given attribute.
+        Get the fingerprint of given attribute.
+
+        NOTE: we must not use the built-in hash function here, since different
+        values may share the same hash, e.g. hash(-1.0) == hash(-2.0).
 
         :param attr: name of the attribute
-        :return: hash of the attribute
+        :return: fingerprint of the attribute
         :raises ValueError: if attr is illegal
         """
         if attr == "orb":
-            new_hash = hash(tuple(self._orbital_list))
+            new_hash = tuple(self._orbital_list)
         elif attr == "hop":
-            new_hash = hash(self._hopping_dict)
+            new_hash = tuple(self._hopping_dict.to_list())
         else:
             raise ValueError(f"Illegal attribute name {attr}")
         return new_hash
diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 24b0958..1ae8c4d 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -1,6 +1,6 @@
 """Functions and classes for supercell."""
 
-from typing import Callable, Iterable, Tuple, Union, Set, List
+from typing import Callable, Hashable, Iterable, Tuple, Union, Set, List
 
 import numpy as np
 import matplotlib.pyplot as plt
@@ -162,22 +162,21 @@ class OrbitalSet(Observable):
               tuple(self._vacancy_set))
         return hash(fp)
 
-    def _get_attr_hash(self, attr: str) -> int:
+    def _get_attr_hash(self, attr: str) -> Hashable:
         """
-        Get hash of given attribute.
+        Get fingerprint of given attribute.
 
-        For the primitive cell, we can use both its actual hash or the number
-        of orbitals as the fingerprint, while the latter is much faster.
+        NOTE: we must not use the built-in hash function here, since different
+        values may share the same hash, e.g. hash(-1.0) == hash(-2.0).
 
         :param attr: name of the attribute
-        :return: hash of the attribute
+        :return: fingerprint of the attribute
         :raises ValueError: if attr is illegal
         """
         if attr == "pc":
-            new_hash = hash(self._prim_cell)
-            # new_hash = self.num_orb_pc
+            new_hash = self._prim_cell.get_fingerprint()
         elif attr == "vac":
-            new_hash = hash(tuple(self._vacancy_set))
+            new_hash = frozenset(self._vacancy_set)
         else:
             raise ValueError(f"Illegal attribute name {attr}")
         return new_hash
-- 
2.43.0


From 384ef9a5e0b142040ff52e5461fba0eff3720a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:08 +0000
Subject: [PATCH 02/41] fix: use absolute on-site energies when estimating the
 rescale factor

---
 tbplas/cython/sample.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tbplas/cython/sample.pyx b/tbplas/cython/sample.pyx
index c48e522..9e7998e 100644
--- a/tbplas/cython/sample.pyx
+++ b/tbplas/cython/sample.pyx
@@ -8,7 +8,7 @@
 # cython: warn.multiple_declarators=True
 
 import cython
-from libc.math cimport cos, sin, pi, sqrt
+from libc.math cimport cos, sin, pi, sqrt, fabs
 import numpy as np
 
 
@@ -104,7 +104,7 @@ def get_rescale(double [::1] orb_eng, long [::1] hop_i, long [::1] hop_j,
 
     ham_sum = np.zeros(num_orb_sc, dtype=np.float64)
     for io in range(num_orb_sc):
-        ham_sum[io] = orb_eng[io]
+        ham_sum[io] = fabs(orb_eng[io])
     for ih in range(num_hop_sc):
         ii, jj = hop_i[ih], hop_j[ih]
         hop_abs = sqrt(hop_v[ih].real**2 + hop_v[ih].imag**2)
-- 
2.43.0


From facdbfddd389c0569124098a984721639d193ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:08 +0000
Subject: [PATCH 03/41] fix: correct Peierls phase of the symmetric gauge

---
 tbplas/cython/sample.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/cython/sample.pyx b/tbplas/cython/sample.pyx
index 9e7998e..79200be 100644
--- a/tbplas/cython/sample.pyx
+++ b/tbplas/cython/sample.pyx
@@ -68,7 +68,7 @@ def set_mag_field(long [::1] hop_i, long [::1] hop_j,
             dx, dy = dr[ih, 0], dr[ih, 1]
             sx = orb_pos[jj, 0] + orb_pos[ii, 0]
             sy = orb_pos[jj, 1] + orb_pos[ii, 1]
-            phase = factor * 0.5 * intensity * (dx * sx - dy * sy)
+            phase = factor * 0.5 * intensity * (dx * sy - dy * sx)
             hop_v[ih] = hop_v[ih] * (cos(phase) + 1j * sin(phase))
 
 
-- 
2.43.0


From 5c89f577bd7ee37c2128002ad6b034da4855e48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:08 +0000
Subject: [PATCH 04/41] fix: estimate rescale factor w.r.t. the original
 Hamiltonian

---
 tbplas/builder/sample.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index b164df4..f7ef784 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -294,6 +294,8 @@ class Sample(Observable):
         if factor is None:
             factor = core.get_rescale(self.orb_eng, self.hop_i, self.hop_j,
                                       self.hop_v)
+            # The arrays may have already been rescaled.
+            factor *= self._rescale
         self.orb_eng *= (self._rescale / factor)
         self.hop_v *= (self._rescale / factor)
         self._rescale = factor
-- 
2.43.0


From cb0d719849dac1eee47e60f8a09536b61090db6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:08 +0000
Subject: [PATCH 05/41] fix: keep hopping indices as integers when hop_modifier
 adds no new term

---
 tbplas/builder/super.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 1ae8c4d..d008ddf 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -800,10 +800,10 @@ class SuperCell(OrbitalSet):
                     dr_new.append(dr_i)
 
             # Append additional hopping terms
-            hop_i = np.append(hop_i, hop_i_new)
-            hop_j = np.append(hop_j, hop_j_new)
-            hop_v = np.append(hop_v, hop_v_new)
             if len(dr_new) != 0:
+                hop_i = np.append(hop_i, hop_i_new)
+                hop_j = np.append(hop_j, hop_j_new)
+                hop_v = np.append(hop_v, hop_v_new)
                 dr = np.vstack((dr, dr_new))
         return hop_i, hop_j, hop_v, dr
 
-- 
2.43.0


From 58c46a4d0e480c9c3322d3854d41f706634e7a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:08 +0000
Subject: [PATCH 06/41] fix: check all the indices before removing orbitals
 from primitive cell

---
 tbplas/builder/primitive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index 954c803..3f874fa 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -363,11 +363,11 @@ class PrimitiveCell(Observable):
 
         # Delete the orbitals
         indices = sorted(set(indices))
+        for orb_i in indices:
+            if not (0 <= orb_i < self.num_orb):
+                raise exc.PCOrbIndexError(orb_i)
         for i, orb_i in enumerate(indices):
-            try:
-                self._orbital_list.pop(orb_i - i)
-            except IndexError as err:
-                raise exc.PCOrbIndexError(orb_i) from err
+            self._orbital_list.pop(orb_i - i)
 
         # Delete associated hopping terms
         self._hopping_dict.remove_orbitals(indices)
-- 
2.43.0


From 3da7a663522440ac357548463f7208e4842aa73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:08 +0000
Subject: [PATCH 07/41] fix: keep vacancies unchanged if any of the new ones is
 illegal

Also accept None in set_vacancies, which is the default value.
---
 tbplas/builder/super.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index d008ddf..eaae23e 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -258,11 +258,13 @@ class OrbitalSet(Observable):
             out of range
         """
         self.check_lock()
+        new_vacancies = set()
         for vacancy in vacancies:
             if not isinstance(vacancy, tuple):
                 vacancy = tuple(vacancy)
             self._check_id_pc(vacancy)
-            self._vacancy_set.add(vacancy)
+            new_vacancies.add(vacancy)
+        self._vacancy_set |= new_vacancies
 
     def set_vacancies(self, vacancies: Union[Iterable[id_pc_type], np.ndarray] = None) -> None:
         """
@@ -277,8 +279,13 @@ class OrbitalSet(Observable):
             out of range
         """
         self.check_lock()
-        self._vacancy_set = set()
-        self.add_vacancies(vacancies)
+        old_vacancies, self._vacancy_set = self._vacancy_set, set()
+        if vacancies is not None:
+            try:
+                self.add_vacancies(vacancies)
+            except Exception:
+                self._vacancy_set = old_vacancies
+                raise
 
     def sync_array(self, force_sync: bool = False) -> None:
         """
-- 
2.43.0


From 2615f6d8831ec54281b63f0d695369b15d2a9027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:08 +0000
Subject: [PATCH 08/41] fix: keep reporting illegal vacancies until they are
 resolved

---
 tbplas/builder/super.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index eaae23e..5f1345e 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -305,6 +305,13 @@ class OrbitalSet(Observable):
         self._prim_cell.verify_orbitals()
         self._prim_cell.verify_hoppings()
 
+        # Check for invalid vacancies if primitive cell changes
+        # This must be done before updating the hashes. Otherwise, the next
+        # call will take the outdated arrays as synchronized.
+        if self._hash_dict["pc"] != self._get_attr_hash("pc"):
+            for vac in self._vacancy_set:
+                self._check_id_pc(vac)
+
         # Get update flags
         update_pc = self._update_attr_hash("pc")
         update_vac = self._update_attr_hash("vac")
@@ -315,10 +322,6 @@ class OrbitalSet(Observable):
             if self.num_vac == 0:
                 self._vac_id_sc = np.array([], dtype=np.int64)
             else:
-                # Check for invalid vacancies if primitive cell changes
-                if update_pc:
-                    for vac in self._vacancy_set:
-                        self._check_id_pc(vac)
                 vac_id_pc = np.array(sorted(self._vacancy_set), dtype=np.int32)
                 vac_id_sc = core.build_vac_id_sc(self._dim, self.num_orb_pc,
                                                  vac_id_pc)
-- 
2.43.0


From e1e05f2049d73a37a3999fe300247162944be540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:08 +0000
Subject: [PATCH 09/41] fix: forbid removing terms from locked inter-hopping
 containers

---
 tbplas/builder/base.py | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/tbplas/builder/base.py b/tbplas/builder/base.py
index 9e5daee..a936722 100644
--- a/tbplas/builder/base.py
+++ b/tbplas/builder/base.py
@@ -488,6 +488,44 @@ class InterHopping(Observable, IntraHopping):
         self.check_lock()
         super().add_hopping(rn, orb_i, orb_j, energy)
 
+    def remove_hopping(self, rn: rn_type,
+                       orb_i: int,
+                       orb_j: int) -> bool:
+        """
+        Remove an existing hopping term.
+
+        :param rn: (r_a, r_b, r_c), cell index
+        :param orb_i: orbital index or bra
+        :param orb_j: orbital index of ket
+        :return: where the hopping term is removed, False if not found
+        :raises LockError: is the object is locked
+        """
+        self.check_lock()
+        return super().remove_hopping(rn, orb_i, orb_j)
+
+    def remove_orbitals(self, indices: Union[Iterable[int], np.ndarray]) -> None:
+        """
+        Remove the hopping terms corresponding to a list of orbitals and update
+        remaining hopping terms.
+
+        :param indices: indices of orbitals to remove
+        :return: None
+        :raises LockError: is the object is locked
+        """
+        self.check_lock()
+        super().remove_orbitals(indices)
+
+    def remove_rn(self, rn: rn_type) -> bool:
+        """
+        Remove all the hopping terms of given cell index.
+
+        :param rn: (r_a, r_b, r_c), cell index
+        :return: where the hopping terms are removed, False if not found
+        :raises LockError: is the object is locked
+        """
+        self.check_lock()
+        return super().remove_rn(rn)
+
 
 class HopDict:
     """
-- 
2.43.0


From 4d64346fa4aac0d5eb78919e7bfd57bb65ba3fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:08 +0000
Subject: [PATCH 10/41] fix: reset extended of merged cell whenever the
 components differ

---
 tbplas/builder/advanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index c3a1c55..cef5bba 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -363,7 +363,7 @@ def merge_prim_cell(*args: Union[PrimitiveCell, PCInterHopping]) -> PrimitiveCel
     # Determine the 'extended' attribute
     extended = pc_list[0].extended
     for pc in pc_list:
-        if (pc.extended - extended) >= 1.e-3:
+        if abs(pc.extended - extended) >= 1.e-3:
             print(f"INFO: resetting extend to 1.0")
             extended = 1.0
             break
-- 
2.43.0


From 711560ddcee1443f1e740b640bbc1a31ea16427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:08 +0000
Subject: [PATCH 11/41] fix: allow more processes than tasks in
 MPIEnv.dist_bound

---
 tbplas/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/parallel.py b/tbplas/parallel.py
index c5dac5e..3501804 100644
--- a/tbplas/parallel.py
+++ b/tbplas/parallel.py
@@ -116,7 +116,7 @@ class MPIEnv:
         :return: lower and upper bounds of subrange assigned to this process
         """
         i_index = self.dist_range(n_max)
-        i_min, i_max = min(i_index), max(i_index)
+        i_min, i_max = i_index.start, i_index.stop - 1
         return i_min, i_max
 
     def reduce(self, data_local: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 8eece6e4903579aaa4f0e2a4bdda806ae46d462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:48 +0000
Subject: [PATCH 12/41] fix: do not lock components if supercell or sample
 fails to build

---
 tbplas/builder/sample.py | 8 ++++++--
 tbplas/builder/super.py  | 9 ++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index f7ef784..81ec6fd 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -80,8 +80,6 @@ class Sample(Observable):
                 self._hop_list.append(arg)
             else:
                 raise exc.SampleCompError(i_arg)
-            arg.add_subscriber(f"sample #{id(self)}", self)
-            arg.lock(f"sample #{id(self)}")
 
         # Check closure of inter-hopping instances
         for i_h, hop in enumerate(self._hop_list):
@@ -90,6 +88,12 @@ class Sample(Observable):
             if hop.sc_ket not in self._sc_list:
                 raise exc.SampleClosureError(i_h, "sc_ket")
 
+        # Lock the components
+        # This must be done after all the arguments have been checked.
+        for arg in args:
+            arg.add_subscriber(f"sample #{id(self)}", self)
+            arg.lock(f"sample #{id(self)}")
+
         # Declare arrays
         # The actual initialization will be done on-demand in init_* methods.
         self.orb_eng = None
diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 5f1345e..376cc58 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -118,10 +118,8 @@ class OrbitalSet(Observable):
         """
         super().__init__()
 
-        # Set and lock the primitive cell
+        # Set the primitive cell
         self._prim_cell = prim_cell
-        self._prim_cell.add_subscriber(f"supercell #{id(self)}", self)
-        self._prim_cell.lock(f"supercell #{id(self)}")
         self._prim_cell.verify_orbitals()
         self._prim_cell.verify_hoppings()
 
@@ -156,6 +154,11 @@ class OrbitalSet(Observable):
         if vacancies is not None:
             self.add_vacancies(vacancies)
 
+        # Lock the primitive cell
+        # This must be done after all the arguments have been checked.
+        self._prim_cell.add_subscriber(f"supercell #{id(self)}", self)
+        self._prim_cell.lock(f"supercell #{id(self)}")
+
     def __hash__(self) -> int:
         """Return the hash of this instance."""
         fp = (self._prim_cell, tuple(self._dim), tuple(self._pbc),
-- 
2.43.0


From ce969ae9510d4fdf79fc04f34a38421edcaff81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:48 +0000
Subject: [PATCH 13/41] fix: reduce dynamic polarizability only once

Reducing it for each q-point multiplied the results of all the previous
q-points by the number of MPI processes.
---
 tbplas/diagonal/lindhard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tbplas/diagonal/lindhard.py b/tbplas/diagonal/lindhard.py
index 9fe8e13..4b4b3a1 100644
--- a/tbplas/diagonal/lindhard.py
+++ b/tbplas/diagonal/lindhard.py
@@ -409,7 +409,7 @@ class Lindhard(DiagSolver):
             else:
                 core.dyn_pol(delta_eng, prod_df, self._omegas, self._delta,
                              k_min, k_max, i_q, dyn_pol)
-            dyn_pol = self.all_reduce(dyn_pol)
+        dyn_pol = self.all_reduce(dyn_pol)
 
         # Multiply dyn_pol by prefactor
         dyn_pol *= self._get_dyn_pol_factor()
@@ -498,7 +498,7 @@ class Lindhard(DiagSolver):
             else:
                 core.dyn_pol(delta_eng, prod_df, self._omegas, self._delta,
                              k_min, k_max, i_q, dyn_pol)
-            dyn_pol = self.all_reduce(dyn_pol)
+        dyn_pol = self.all_reduce(dyn_pol)
 
         # Multiply dyn_pol by prefactor
         dyn_pol *= self._get_dyn_pol_factor()
-- 
2.43.0


From cd45b6cf1b86a809a272a7e1ec2428a9da91f5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:48 +0000
Subject: [PATCH 14/41] fix: keep on-site energies and hopping terms in the
 same scale

---
 tbplas/builder/sample.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index 81ec6fd..9f4333d 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -138,6 +138,7 @@ class Sample(Observable):
         if force_init or self.orb_eng is None:
             orb_eng = [sc.get_orb_eng() for sc in self._sc_list]
             self.orb_eng = np.concatenate(orb_eng)
+            self.orb_eng /= self._rescale
 
     def init_orb_pos(self, force_init: bool = False) -> None:
         """
@@ -199,6 +200,8 @@ class Sample(Observable):
             self.dr = np.concatenate(dr_tot)
 
             # Reset scaling factor
+            if self.orb_eng is not None:
+                self.orb_eng *= self._rescale
             self._rescale = 1.0
 
     def reset_array(self) -> None:
@@ -210,6 +213,7 @@ class Sample(Observable):
         :raises ValueError: if duplicate terms have been detected in any
             inter-hopping
         """
+        self._rescale = 1.0
         if self.orb_eng is not None:
             self.init_orb_eng(force_init=True)
         if self.orb_pos is not None:
-- 
2.43.0


From 49fe9af4ecfba3215748550e35842aa580a46c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:10 +0000
Subject: [PATCH 15/41] fix: keep HopDict unchanged on illegal matrix and allow
 reusing it

---
 tbplas/builder/base.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/tbplas/builder/base.py b/tbplas/builder/base.py
index a936722..784decb 100644
--- a/tbplas/builder/base.py
+++ b/tbplas/builder/base.py
@@ -577,14 +577,14 @@ class HopDict:
             raise ValueError(f"Shape of hopping matrix {hop_mat.shape} does not "
                              f"match {self._mat_shape}")
 
+        # Check for diagonal terms
+        if rn == (0, 0, 0):
+            self._check_diag_mat(hop_mat)
+
         # Set hopping matrix
         # We copy the hopping matrix to avoid changing it accidentally.
         self._hoppings[rn] = hop_mat.copy()
 
-        # Check for diagonal terms
-        if rn == (0, 0, 0):
-            self._check_diag()
-
     def __getitem__(self, rn: rn_type) -> np.ndarray:
         """
         Get the hopping matrix according to cell index.
@@ -627,10 +627,21 @@ class HopDict:
         """
         rn = (0, 0, 0)
         if rn in self._hoppings.keys():
-            hop_mat = self._hoppings[rn]
-            for i, energy in enumerate(np.abs(np.diag(hop_mat))):
-                if energy >= 1e-5:
-                    raise exc.PCHopDiagonalError(rn, i)
+            self._check_diag_mat(self._hoppings[rn])
+
+    @staticmethod
+    def _check_diag_mat(hop_mat: Union[coo_matrix, np.ndarray]) -> None:
+        """
+        Check for diagonal terms in the hopping matrix of rn = (0, 0, 0).
+
+        :param hop_mat: hopping matrix in dense or sparse format
+        :return: None
+        :raises PCHopDiagonalError: if on-site energies are included in hopping
+            matrix
+        """
+        for i, energy in enumerate(np.abs(hop_mat.diagonal())):
+            if energy >= 1e-5:
+                raise exc.PCHopDiagonalError((0, 0, 0), i)
 
     def to_spare(self) -> None:
         """
-- 
2.43.0


From 59d8812eedf1e802a9b28c5b27ed3c7ea5ab8a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:10 +0000
Subject: [PATCH 16/41] fix: check all the terms before adding a HopDict to
 primitive cell

Negligible diagonal terms are skipped, as they are accepted by HopDict.
---
 tbplas/builder/primitive.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index 3f874fa..650deea 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -407,12 +407,18 @@ class PrimitiveCell(Observable):
         """
         self.check_lock()
         hop_dict.to_spare()
+        hop_terms = []
         for rn, hop_mat in hop_dict.hoppings.items():
             for i in range(hop_mat.nnz):
                 orb_i = hop_mat.row.item(i)
                 orb_j = hop_mat.col.item(i)
                 hop_eng = hop_mat.data.item(i)
-                self.add_hopping(rn, orb_i, orb_j, hop_eng)
+                # Diagonal terms are negligible as checked by 'to_spare'.
+                if not (rn == (0, 0, 0) and orb_i == orb_j):
+                    self._check_hop_index(rn, orb_i, orb_j)
+                    hop_terms.append((rn, orb_i, orb_j, hop_eng))
+        for term in hop_terms:
+            self.add_hopping(*term)
 
     def get_hopping(self, rn: rn_type,
                     orb_i: int,
-- 
2.43.0


From ab4973d90ff22705a1cd2cba2e0486cfb15cdcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:30 +0000
Subject: [PATCH 17/41] fix: reset scaling factor of sample along with the
 hopping terms

---
 tbplas/builder/sample.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index 9f4333d..a54eb47 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -213,13 +213,12 @@ class Sample(Observable):
         :raises ValueError: if duplicate terms have been detected in any
             inter-hopping
         """
-        self._rescale = 1.0
+        if self.hop_i is not None:
+            self.init_hop(force_init=True)
         if self.orb_eng is not None:
             self.init_orb_eng(force_init=True)
         if self.orb_pos is not None:
             self.init_orb_pos(force_init=True)
-        if self.hop_i is not None:
-            self.init_hop(force_init=True)
         for arg in self._sc_list:
             arg.lock(f"sample #{id(self)}")
         for arg in self._hop_list:
-- 
2.43.0


From 5d05e452963f5c0c3d99f9914cef0292be9a2489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:42 +0000
Subject: [PATCH 18/41] fix: accept sequences as fractional coordinates in
 frac2cart

---
 tbplas/base/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/base/lattice.py b/tbplas/base/lattice.py
index e91babb..c09ff17 100644
--- a/tbplas/base/lattice.py
+++ b/tbplas/base/lattice.py
@@ -116,7 +116,7 @@ def frac2cart(lattice_vectors: np.ndarray,
     if not isinstance(lattice_vectors, np.ndarray):
         lattice_vectors = np.array(lattice_vectors)
     if not isinstance(fractional_coordinates, np.ndarray):
-        fractional_coordinates = np.ndarray(fractional_coordinates)
+        fractional_coordinates = np.array(fractional_coordinates)
     cartesian_coordinates = np.zeros(fractional_coordinates.shape)
     conversion_matrix = lattice_vectors.T
     for i, row in enumerate(fractional_coordinates):
-- 
2.43.0


From ac3c752d7cb30da0e2c8c89f51ec34077f4b296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:42 +0000
Subject: [PATCH 19/41] fix: do not truncate rotated coordinates to integers

---
 tbplas/base/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/base/lattice.py b/tbplas/base/lattice.py
index c09ff17..8c34da5 100644
--- a/tbplas/base/lattice.py
+++ b/tbplas/base/lattice.py
@@ -172,7 +172,7 @@ def rotate_coord(coord: np.ndarray,
     rot_mat = cos_ang * np.eye(3) + sin_ang * u_prod + (1 - cos_ang) * u_tens
 
     # Rotate coordinates
-    coord_rot = np.zeros(shape=coord.shape, dtype=coord.dtype)
+    coord_rot = np.zeros(shape=coord.shape)
     for i in range(coord.shape[0]):
         coord_rot[i] = np.matmul(rot_mat, coord[i] - center) + center
     return coord_rot
-- 
2.43.0


From 92edc33af3620d0d9311fe41812c1462bbfa8db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:25 +0000
Subject: [PATCH 20/41] fix: search the whole reshaped cell for orbitals

---
 tbplas/builder/advanced.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index cef5bba..37e76f0 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -181,15 +181,19 @@ def reshape_prim_cell(prim_cell: PrimitiveCell,
     res_cell.extended = prim_cell.extended * (vol_res / vol_prim)
 
     # Determine searching range
-    # sum_vec is actually a0+a1, a1+a2 or a2+a0 depending on j, i.e., the
-    # diagonal vector. If it is not taken into consideration, orbitals and
-    # hopping terms in the top right corner of reshaped cell may be missing.
+    # All the corners of reshaped cell should be taken into consideration.
+    # Otherwise, orbitals and hopping terms close to them may be missing. Also,
+    # orbitals may be located out of the (0, 0, 0) primitive cell.
+    orb_pos = prim_cell.orb_pos
+    corners = np.array([np.matmul((i_a, i_b, i_c), lat_frac)
+                        for i_a in (0, 1) for i_b in (0, 1) for i_c in (0, 1)])
     rn_range = np.zeros((3, 2), dtype=np.int32)
-    for i in range(3):
-        sum_vec = lat_frac.sum(axis=0) - lat_frac[i]
-        for j in range(3):
-            rn_range[j, 0] = min(rn_range[j, 0], floor(sum_vec[j]))
-            rn_range[j, 1] = max(rn_range[j, 1], ceil(sum_vec[j]))
+    for j in range(3):
+        rn_range[j, 0] = floor(corners[:, j].min())
+        rn_range[j, 1] = ceil(corners[:, j].max())
+        if prim_cell.num_orb > 0:
+            rn_range[j, 0] -= max(0, floor(orb_pos[:, j].max()))
+            rn_range[j, 1] -= min(0, floor(orb_pos[:, j].min()))
     rn_range[:, 0] -= 1
     rn_range[:, 1] += 1
 
@@ -198,7 +202,6 @@ def reshape_prim_cell(prim_cell: PrimitiveCell,
         return floor(x.item(0)), floor(x.item(1)), floor(x.item(2))
 
     # Add orbitals
-    orb_pos = prim_cell.orb_pos
     orb_map = OrbitalMap()
     for i_a in range(rn_range.item(0, 0), rn_range.item(0, 1)+1):
         for i_b in range(rn_range.item(1, 0), rn_range.item(1, 1)+1):
-- 
2.43.0


From a6e585c8fb477752ade3da87b89c848f2c0a97b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:25 +0000
Subject: [PATCH 21/41] fix: keep components unchanged when merging primitive
 cells

---
 tbplas/builder/advanced.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index 37e76f0..7ac464d 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -373,10 +373,13 @@ def merge_prim_cell(*args: Union[PrimitiveCell, PCInterHopping]) -> PrimitiveCel
     merged_cell.extended = extended
 
     # Add orbitals
+    # The orbitals keep their Cartesian coordinates. Do not reset the lattice of
+    # the components, as they may be locked or utilized elsewhere.
     for pc in pc_list:
-        pc.reset_lattice(lat_ref, origin_ref, unit=consts.NM, fix_orb=True)
+        shift = cart2frac(lat_ref, np.array([pc.origin - origin_ref]))[0]
         for orb in pc.orbitals:
-            merged_cell.add_orbital(position=orb.position, energy=orb.energy,
+            position = tuple(np.array(orb.position) + shift)
+            merged_cell.add_orbital(position=position, energy=orb.energy,
                                     label=orb.label)
 
     # Add intra-hopping terms
-- 
2.43.0


From 45bace185419d2e99221e563d373157342cb954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:25 +0000
Subject: [PATCH 22/41] fix: check components and orbital indices before
 merging primitive cells

---
 tbplas/builder/advanced.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index 7ac464d..e114ceb 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -338,6 +338,9 @@ def merge_prim_cell(*args: Union[PrimitiveCell, PCInterHopping]) -> PrimitiveCel
             raise ValueError(f"Component #{i_arg} should be instance of "
                              f"PrimitiveCell or PCInterHopping")
 
+    if len(pc_list) == 0:
+        raise ValueError("No primitive cells in the components")
+
     # Check lattice mismatch
     lat_ref = pc_list[0].lat_vec
     for i, pc in enumerate(pc_list):
@@ -351,6 +354,15 @@ def merge_prim_cell(*args: Union[PrimitiveCell, PCInterHopping]) -> PrimitiveCel
         if hop.pc_ket not in pc_list:
             raise ValueError(f"pc_ket of inter_hop #{i_h} not included in args")
 
+    # Check orbital indices of inter-hopping instances
+    for hop in hop_list:
+        for hop_rn in hop.hoppings.values():
+            for orb_i, orb_j in hop_rn.keys():
+                if not (0 <= orb_i < hop.pc_bra.num_orb):
+                    raise exc.PCOrbIndexError(orb_i)
+                if not (0 <= orb_j < hop.pc_ket.num_orb):
+                    raise exc.PCOrbIndexError(orb_j)
+
     # Get numbers of orbitals of each component
     num_orb = [pc.num_orb for pc in pc_list]
 
-- 
2.43.0


From 3d7321b9cd3961f729004053e551d82d063b2490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:41 +0000
Subject: [PATCH 23/41] fix: allow mixed primitive cell and supercell in
 find_neighbors

---
 tbplas/builder/advanced.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index e114ceb..cd0bcc1 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -450,17 +450,14 @@ def find_neighbors(cell_bra: Union[PrimitiveCell, SuperCell],
         cell_ket = cell_bra
 
     # Check for number of orbitals
-    if isinstance(cell_bra, PrimitiveCell):
-        cell_bra.verify_orbitals()
-        cell_ket.verify_orbitals()
+    for cell in (cell_bra, cell_ket):
+        if isinstance(cell, PrimitiveCell):
+            cell.verify_orbitals()
 
     # Get orbital positions
-    if isinstance(cell_bra, PrimitiveCell):
-        pos_bra = cell_bra.orb_pos_nm
-        pos_ket = cell_ket.orb_pos_nm
-    else:
-        pos_bra = cell_bra.get_orb_pos()
-        pos_ket = cell_ket.get_orb_pos()
+    pos_bra, pos_ket = [cell.orb_pos_nm if isinstance(cell, PrimitiveCell)
+                        else cell.get_orb_pos()
+                        for cell in (cell_bra, cell_ket)]
 
     # Get lattice vectors of cell_ket
     if isinstance(cell_ket, PrimitiveCell):
-- 
2.43.0


From cee39888a77944b06648e1aec9a9942febb8fa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:41 +0000
Subject: [PATCH 24/41] fix: do not take coincident orbitals as neighbors due
 to rounding errors

---
 tbplas/builder/advanced.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index cd0bcc1..6af00c6 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -481,7 +481,8 @@ def find_neighbors(cell_bra: Union[PrimitiveCell, SuperCell],
         dist_matrix = tree_bra.sparse_distance_matrix(tree_ket_rn,
                                                       max_distance=max_distance)
         for pair, distance in dist_matrix.items():
-            if distance > 0.0:
+            # Distances of coincident orbitals are zero within rounding errors
+            if distance > 1.0e-10:
                 i, j = pair
                 rij = pos_ket_rn[j] - pos_bra[i]
                 neighbors.append(Term(rn, pair, rij, distance))
-- 
2.43.0


From 8bc75291a7bfdc57af0d215ee9ccc927585689ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:06 +0000
Subject: [PATCH 25/41] fix: reallocate the dense matrices of DiagSolver when
 the number of orbitals changes

---
 tbplas/diagonal/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tbplas/diagonal/base.py b/tbplas/diagonal/base.py
index 2d55dad..dcf4139 100644
--- a/tbplas/diagonal/base.py
+++ b/tbplas/diagonal/base.py
@@ -245,7 +245,7 @@ class DiagSolver(MPIEnv):
         :raises RuntimeError: if diagonalization failed
         """
         # Set up the Hamiltonian
-        if self.__h_mat is None:
+        if self.__h_mat is None or self.__h_mat.shape[0] != self.num_orb:
             self.__h_mat = np.zeros((self.num_orb, self.num_orb),
                                     dtype=np.complex128)
         else:
@@ -254,7 +254,7 @@ class DiagSolver(MPIEnv):
 
         # Set up the overlap matrix
         if self.__overlap is not None:
-            if self.__s_mat is None:
+            if self.__s_mat is None or self.__s_mat.shape[0] != self.num_orb:
                 self.__s_mat = np.zeros((self.num_orb, self.num_orb),
                                         dtype=np.complex128)
             else:
-- 
2.43.0


From 496a404ef66eb36f584ce630e04bcf11b59d10c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:07 +0000
Subject: [PATCH 26/41] fix: evaluate projections on all k-points when
 orbital_indices is an iterator

---
 tbplas/diagonal/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tbplas/diagonal/base.py b/tbplas/diagonal/base.py
index dcf4139..dc7c00d 100644
--- a/tbplas/diagonal/base.py
+++ b/tbplas/diagonal/base.py
@@ -352,6 +352,9 @@ class DiagSolver(MPIEnv):
         # Initialize working arrays
         bands = np.zeros((num_kpt, num_bands), dtype=np.float64)
         if orbital_indices is not None:
+            # Indices are looped over for each k-point, while iterators can be
+            # consumed only once.
+            orbital_indices = list(orbital_indices)
             proj = np.zeros((num_kpt, num_bands), dtype=np.float64)
         else:
             proj = np.ones((num_kpt, num_bands), dtype=np.float64)
-- 
2.43.0


From 070d20c5e636ace0ae75c596fa2eb39dda29c090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:49 +0000
Subject: [PATCH 27/41] fix: convert list of q-points in Lindhard.calc_epsilon

---
 tbplas/diagonal/lindhard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/diagonal/lindhard.py b/tbplas/diagonal/lindhard.py
index 4b4b3a1..76c5e95 100644
--- a/tbplas/diagonal/lindhard.py
+++ b/tbplas/diagonal/lindhard.py
@@ -539,7 +539,7 @@ class Lindhard(DiagSolver):
             relative dielectric function
         """
         if not isinstance(q_points, np.ndarray):
-            q_points = np.ndarray(q_points, dtype=np.float64)
+            q_points = np.array(q_points, dtype=np.float64)
         num_qpt = q_points.shape[0]
         num_omega = self._omegas.shape[0]
         epsilon = np.zeros((num_qpt, num_omega), dtype=np.complex128)
-- 
2.43.0


From 852283b514c9d049708f09cba89b4e62be6f1ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:02 +0000
Subject: [PATCH 28/41] fix: evaluate Z2 phases with eigenstates periodic in
 the reciprocal space

---
 tbplas/diagonal/z2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tbplas/diagonal/z2.py b/tbplas/diagonal/z2.py
index 35397f5..b1bace5 100644
--- a/tbplas/diagonal/z2.py
+++ b/tbplas/diagonal/z2.py
@@ -60,7 +60,9 @@ class Z2(DiagSolver):
         :return: (num_orb, num_orb) complex128 array
             eigenstates of the given k-point
         """
-        eigenvalues, eigenstates = self._diag_ham_dense(kpt)
+        # Convention 2 is mandatory, since the eigenstates must be periodic in
+        # the reciprocal space for closing the loop along a-axis.
+        eigenvalues, eigenstates = self._diag_ham_dense(kpt, convention=2)
         idx = eigenvalues.argsort()
         return eigenstates[:, idx]
 
-- 
2.43.0


From dfd5371c8d454bc60061cc98d6011c9187893e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:02 +0000
Subject: [PATCH 29/41] fix: synchronize the model before evaluating Z2 phases

---
 tbplas/diagonal/z2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tbplas/diagonal/z2.py b/tbplas/diagonal/z2.py
index b1bace5..f12d9c5 100644
--- a/tbplas/diagonal/z2.py
+++ b/tbplas/diagonal/z2.py
@@ -143,6 +143,8 @@ class Z2(DiagSolver):
             phases: (num_kpt, num_occ) float64 array
             phases of WF centers
         """
+        self._update_array()
+
         # Allocate working arrays
         if ka_array is None:
             ka_array = np.linspace(-0.5, 0.5, 200)
-- 
2.43.0


From fb07527e97c8356a762cdf5de4229dc80563cc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:02 +0000
Subject: [PATCH 30/41] fix: do not reuse wave functions of SpinTexture after
 the model has changed

---
 tbplas/diagonal/base.py     | 17 +++++++++++++++++
 tbplas/diagonal/magnetic.py | 13 +++++++------
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/tbplas/diagonal/base.py b/tbplas/diagonal/base.py
index dc7c00d..f40302e 100644
--- a/tbplas/diagonal/base.py
+++ b/tbplas/diagonal/base.py
@@ -210,6 +210,23 @@ class DiagSolver(MPIEnv):
         if self.__overlap is not None:
             self.__overlap.sync_array()
 
+    def _get_fingerprint(self) -> Union[tuple, None]:
+        """
+        Get the fingerprint of the model and overlap for caching the results.
+
+        :return: fingerprint of the model and overlap, or None if any of them
+            does not have a fingerprint
+        """
+        fp = []
+        for component in (self.__model, self.__overlap):
+            if component is None:
+                fp.append(None)
+            elif hasattr(component, "get_fingerprint"):
+                fp.append(component.get_fingerprint())
+            else:
+                return None
+        return tuple(fp)
+
     @staticmethod
     def _calc_proj(orbital_indices: Union[Iterable[int], np.ndarray],
                    eigenstates: np.ndarray) -> np.ndarray:
diff --git a/tbplas/diagonal/magnetic.py b/tbplas/diagonal/magnetic.py
index 4ca6696..e97a02c 100644
--- a/tbplas/diagonal/magnetic.py
+++ b/tbplas/diagonal/magnetic.py
@@ -23,8 +23,8 @@ class SpinTexture(DiagSolver):
         whether the orbitals are stored in spin-major order
     _states: (num_kpt, num_orb) complex128 array
         cache of wave functions
-    _hash_k: int
-        hash of k-grid
+    _fp: tuple
+        fingerprint of k-grid, model and overlap for self._states
     """
     def __init__(self, cell: Any,
                  k_grid: np.ndarray,
@@ -40,7 +40,7 @@ class SpinTexture(DiagSolver):
         self._k_grid = k_grid
         self._spin_major = spin_major
         self._states = None
-        self._hash_k = None
+        self._fp = None
 
     def update_states(self) -> None:
         """
@@ -48,10 +48,11 @@ class SpinTexture(DiagSolver):
 
         :return: None
         """
-        hash_new = hash(tuple([tuple(_) for _ in self._k_grid]))
-        if self._hash_k != hash_new:
-            self._hash_k = hash_new
+        fp_solver = self._get_fingerprint()
+        fp_new = (tuple([tuple(_) for _ in self._k_grid]), fp_solver)
+        if fp_solver is None or self._fp != fp_new:
             self._states = self.calc_states(self._k_grid, all_reduce=False)[1]
+            self._fp = fp_new
 
     def split_spin(self, state: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
         """
-- 
2.43.0


From 5bb7efb92ccb320b0be17670f79f9a4abf110032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:49 +0000
Subject: [PATCH 31/41] fix: make_graphene_rect honours c when reshaping the
 diamond cell

---
 tbplas/materials/graphene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/materials/graphene.py b/tbplas/materials/graphene.py
index 7891deb..10ff245 100644
--- a/tbplas/materials/graphene.py
+++ b/tbplas/materials/graphene.py
@@ -66,7 +66,7 @@ def make_graphene_rect(from_scratch: bool = True,
         cell.add_hopping((1, 0), 3, 1, t)
         cell.add_hopping((1, 0), 2, 0, t)
     else:
-        cell = make_graphene_diamond(t=t)
+        cell = make_graphene_diamond(c=c, t=t)
         lat_frac = np.array([[1, 0, 0], [-1, 2, 0], [0, 0, 1]])
         cell = reshape_prim_cell(cell, lat_frac)
     return cell
-- 
2.43.0


From 56052a70aed906eb08e398d86e8aeda5053324e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:49 +0000
Subject: [PATCH 32/41] fix: pad Bessel series so that tiny time steps do not
 read out of bounds

---
 tbplas/tbpm/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tbplas/tbpm/solver.py b/tbplas/tbpm/solver.py
index 7dbbbc7..5381000 100644
--- a/tbplas/tbpm/solver.py
+++ b/tbplas/tbpm/solver.py
@@ -221,6 +221,10 @@ class Solver(MPIEnv):
         # Check and return results
         if not converged:
             raise ValueError("Bessel_max too low")
+
+        # The propagation needs at least 3 terms, even for tiny time steps.
+        for i in range(len(bessel_series), 3):
+            bessel_series.append(spec.jv(i, time_scaled))
         return bessel_series
 
     def _get_beta_mu_re(self) -> Tuple[float, float]:
-- 
2.43.0


From 0c032218f16f9c6ddeb2114d1c5ab97f2a25bded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:49 +0000
Subject: [PATCH 33/41] fix: end the Haydock recursion when it terminates
 exactly

---
 tbplas/fortran/propagation.f90 | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tbplas/fortran/propagation.f90 b/tbplas/fortran/propagation.f90
index cc68b7f..2b8bafa 100644
--- a/tbplas/fortran/propagation.f90
+++ b/tbplas/fortran/propagation.f90
@@ -126,6 +126,13 @@ SUBROUTINE Haydock_coef(n1, n_depth, H_csr, H_rescale, coefa, coefb)
     coefa(1) = inner_prod(n1, n_buf)   ! a1 = <n1|H|n1> = <n1|n_buf>
     CALL axpy(-coefa(1), n1, n_buf)    ! m2 = (H - a1)|n1> = |n_buf> - a1|n1>
     coefb(1) = norm(n_buf)             ! b2 = |m2|
+
+    ! The recursion terminates when the remainder vanishes.
+    IF (coefb(1) == 0D0) THEN
+        coefa(2:) = 0D0
+        coefb(2:) = 0D0
+        RETURN
+    END IF
     n2 = n_buf / coefb(1)              ! n2 = m2 / b2
 
     ! initialize pointers
@@ -144,6 +151,11 @@ SUBROUTINE Haydock_coef(n1, n_depth, H_csr, H_rescale, coefa, coefb)
         ! mi+1 = (H - ai)|ni> - bi|ni-1> = n_buf - ai|ni> - bi|ni-1>
         CALL axpbypz(-coefa(i), p2, -coefb(i-1), p1, p_buf)
         coefb(i) = norm(p_buf)             ! bi+1 = |mi+1|
+        IF (coefb(i) == 0D0) THEN
+            coefa(i+1:) = 0D0
+            coefb(i+1:) = 0D0
+            RETURN
+        END IF
         p_buf = p_buf / coefb(i)           ! ni+1 = mi+1 / bi+1
 
         ! update pointers
-- 
2.43.0


From f64be5a49cbfff2aa97e16840801c19c8a7c288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:49 +0000
Subject: [PATCH 34/41] fix: divide Wannier90 hopping terms by the degeneracies
 of their cells

---
 tbplas/adapter/wannier90.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tbplas/adapter/wannier90.py b/tbplas/adapter/wannier90.py
index 1068cba..e880bbd 100644
--- a/tbplas/adapter/wannier90.py
+++ b/tbplas/adapter/wannier90.py
@@ -91,14 +91,20 @@ def read_hop(seed_name: str = "wannier90") -> Tuple[List[rn5_type], List[complex
     """
     with open(f"{seed_name}_hr.dat", "r") as hr_file:
         hr_content = hr_file.readlines()
-    nl_hopping = int(hr_content[2])
-    nl_skip = 3 + int(np.ceil(nl_hopping / 15))
+    num_wan = int(hr_content[1])
+    num_cell = int(hr_content[2])
+    nl_skip = 3 + int(np.ceil(num_cell / 15))
+
+    # Degeneracies of Wigner-Seitz grid points, each cell has num_wan**2 terms
+    degeneracy = [int(x) for line in hr_content[3:nl_skip]
+                  for x in line.split()]
     hop_ind, hop_eng = [], []
-    for line in hr_content[nl_skip:]:
+    for i_h, line in enumerate(hr_content[nl_skip:]):
         data = line.split()
         ind = (int(data[0]), int(data[1]), int(data[2]),
                int(data[3])-1, int(data[4])-1)
         eng = float(data[5]) + 1j * float(data[6])
+        eng /= degeneracy[i_h // num_wan**2]
         hop_ind.append(ind)
         hop_eng.append(eng)
     return hop_ind, hop_eng
-- 
2.43.0


From f58dd22f7b1d77b8160e52dd4d43c187986196fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:49 +0000
Subject: [PATCH 35/41] fix: accumulate hopping terms shifted onto each other
 by wsvec

---
 tbplas/adapter/wannier90.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/tbplas/adapter/wannier90.py b/tbplas/adapter/wannier90.py
index e880bbd..8ba48ba 100644
--- a/tbplas/adapter/wannier90.py
+++ b/tbplas/adapter/wannier90.py
@@ -152,23 +152,16 @@ def apply_wsvec(wsvec: dict,
     :param hop_eng: hopping energies in eV
     :return: None
     """
-    for ind_0 in wsvec.keys():
-        # Back up and reset original hopping term
-        ih_0 = hop_ind.index(ind_0)
-        eng_bak = hop_eng[ih_0]
-        hop_eng[ih_0] = 0.0
-
-        # Apply correction vector
-        num_vec = len(wsvec[ind_0])
-        for vec in wsvec[ind_0]:
+    # Cells may be shifted onto each other, so the terms have to be accumulated.
+    hop_dict = dict()
+    for ind_0, eng in zip(hop_ind, hop_eng):
+        vectors = wsvec.get(ind_0, [(0, 0, 0)])
+        for vec in vectors:
             ind_1 = (ind_0[0] + vec[0], ind_0[1] + vec[1], ind_0[2] + vec[2],
                      ind_0[3], ind_0[4])
-            if ind_1 in hop_ind:
-                ih_1 = hop_ind.index(ind_1)
-                hop_eng[ih_1] = eng_bak / num_vec
-            else:
-                hop_ind.append(ind_1)
-                hop_eng.append(eng_bak / num_vec)
+            hop_dict[ind_1] = hop_dict.get(ind_1, 0.0) + eng / len(vectors)
+    hop_ind[:] = hop_dict.keys()
+    hop_eng[:] = hop_dict.values()
 
 
 def wan2pc(seed_name: str = "wannier90",
-- 
2.43.0


From a595cc3af3144d865147d4ee8722746321332436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:13 +0000
Subject: [PATCH 36/41] fix: take the status of a parameter fit from the end of
 leastsq's result (full_output)

---
 tbplas/builder/advanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index 6af00c6..de60989 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -1514,7 +1514,7 @@ class ParamFit(ABC):
         :raises RuntimeError: if the fitting fails
         """
         result = leastsq(self.estimate_error, params0, **kwargs)
-        params, status = result[0], result[1]
+        params, status = result[0], result[-1]
         if status not in (1, 2, 3, 4):
             raise RuntimeError(f"Fitting failed with status {status}")
         return params
-- 
2.43.0


From 5b831099db28f72d1a701199d54dbe30a5fe28b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:13 +0000
Subject: [PATCH 37/41] fix: gen_seeds returns the requested number of seeds
 when some coincide

---
 tbplas/utils.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/tbplas/utils.py b/tbplas/utils.py
index fb438f4..684e957 100644
--- a/tbplas/utils.py
+++ b/tbplas/utils.py
@@ -278,16 +278,12 @@ def gen_seeds(num_seeds: int) -> List[int]:
     :param num_seeds: number of seeds
     :return seeds: generated seeds
     """
-    num_bytes = [random.randint(1, 4) for _ in range(num_seeds)]
-    byte_order = ['big' if random.randint(1, 2) == 1 else 'little'
-                  for _ in range(num_seeds)]
-    # signed = [True if random.randint(1, 2) == 1 else False
-    #           for _ in range(num_seeds)]
-    signed = [True for _ in range(num_seeds)]
     seeds = []
-    for item in zip(num_bytes, byte_order, signed):
-        rand_int = int().from_bytes(os.urandom(item[0]), byteorder=item[1],
-                                    signed=item[2])
+    while len(seeds) < num_seeds:
+        num_bytes = random.randint(1, 4)
+        byte_order = 'big' if random.randint(1, 2) == 1 else 'little'
+        rand_int = int().from_bytes(os.urandom(num_bytes), byteorder=byte_order,
+                                    signed=True)
         if rand_int not in seeds:
             seeds.append(rand_int)
     return seeds
-- 
2.43.0


From 264b66c3975513b18f7b18d905949bf1e0f56ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:13 +0000
Subject: [PATCH 38/41] fix: s orbitals do not vanish at the nucleus in cube
 files

---
 tbplas/cython/atom.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/cython/atom.pyx b/tbplas/cython/atom.pyx
index a0fee2f..029c416 100644
--- a/tbplas/cython/atom.pyx
+++ b/tbplas/cython/atom.pyx
@@ -203,7 +203,7 @@ def set_cube(double [::1] c0, int[::1] qn, double[::1] cube_origin,
             for k in range(num_grid[2]):
                 dz = zmin + res * k - c0[2]
                 r = sqrt(dx2y2 + dz**2)
-                if r < 1.0e-7:
+                if r < 1.0e-7 and l > 0:
                     gridval = 0.0
                 else:
                     gridval = _radial(z, n, l, r) * _ylm(l, m, dx, dy, dz, r) * factor
-- 
2.43.0


From 7575b5010ef7fa4ed37200262aa80f3d67b3ecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:13 +0000
Subject: [PATCH 39/41] fix: draw the orbitals of the home cell when all terms
 point one way

---
 tbplas/builder/primitive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index 650deea..9bec9a0 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -672,8 +672,8 @@ class PrimitiveCell(Observable):
                     rn_range[i, 0] = min([ri_min, ri_max, -ri_min, -ri_max])
                     rn_range[i, 1] = max([ri_min, ri_max, -ri_min, -ri_max])
                 else:
-                    rn_range[i, 0] = ri_min
-                    rn_range[i, 1] = ri_max
+                    rn_range[i, 0] = min(ri_min, 0)
+                    rn_range[i, 1] = max(ri_max, 0)
         ra_min, ra_max = rn_range.item(0, 0), rn_range.item(0, 1)
         rb_min, rb_max = rn_range.item(1, 0), rn_range.item(1, 1)
         rc_min, rc_max = rn_range.item(2, 0), rn_range.item(2, 1)
-- 
2.43.0


From 992f6935bed4e8c9501ef24ef131d930e6c85a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:26 +0000
Subject: [PATCH 40/41] fix: reshape interpolated images to their grid when it
 is not square

---
 tbplas/visual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/visual.py b/tbplas/visual.py
index 88e8070..925e371 100644
--- a/tbplas/visual.py
+++ b/tbplas/visual.py
@@ -338,7 +338,7 @@ class Visualizer(MPIEnv):
                 x_grid, y_grid = np.meshgrid(x_fi, y_fi)
                 xy_fi = np.c_[x_grid.ravel(), y_grid.ravel()]
                 z_fi = griddata((x, y), z, xy_fi, method="cubic")
-                z_fi = z_fi.reshape(num_grid)
+                z_fi = z_fi.reshape(x_grid.shape)
                 extent = (x_min, x_max, y_min, y_max)
                 img = ax.imshow(z_fi, cmap=cmap, interpolation="none",
                                 origin="lower", extent=extent, **kwargs)
-- 
2.43.0


From 29a0c8b2af05e2fcca43057449cd027d10435a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:27 +0000
Subject: [PATCH 41/41] fix: plot_wfc3d failed with the default rn_max

---
 tbplas/visual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/visual.py b/tbplas/visual.py
index 925e371..463689f 100644
--- a/tbplas/visual.py
+++ b/tbplas/visual.py
@@ -503,7 +503,7 @@ class Visualizer(MPIEnv):
             k_point = [0, 0, 0]
         k_point = np.array(k_point, dtype=np.float64)
         if rn_max is None:
-            rn_max = np.zeros(3)
+            rn_max = np.zeros(3, dtype=np.int64)
         rn_frac = np.array([(i, j, k)
                             for i in range(-rn_max[0], rn_max[0] + 1)
                             for j in range(-rn_max[1], rn_max[1] + 1)
-- 
2.43.0

