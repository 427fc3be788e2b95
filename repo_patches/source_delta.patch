From 8aa416952aa49c181499f287b3c223845d6f8427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:25 +0000
Subject: [PATCH 01/79] fix: scisparse solver must return no couplings when the
 requested inputs and outputs are not connected

---
 phasor/matrix/scisparse_algorithm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phasor/matrix/scisparse_algorithm.py b/phasor/matrix/scisparse_algorithm.py
index 46e59ed..94382cf 100644
--- a/phasor/matrix/scisparse_algorithm.py
+++ b/phasor/matrix/scisparse_algorithm.py
@@ -131,6 +131,11 @@ def mgraph_simplify_inplace(
 
     #keys = (keys - keys_alpha) - keys_beta
 
+    if not keys:
+        #the purges left nothing, so no requested input couples to a requested output
+        edge_map.clear()
+        return
+
     keys = list(keys)
     #pprint(keys)
     sortkeys_inplace(keys)
-- 
2.43.0


From 17c8f0b4e39d43137295863e4a5371e07739a01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:09 +0000
Subject: [PATCH 02/79] fix: LUQ solver pivot choice must not fail from
 rounding of the column norm

---
 phasor/matrix/DAG_algorithm_impl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/phasor/matrix/DAG_algorithm_impl.py b/phasor/matrix/DAG_algorithm_impl.py
index 69ab2f3..4c7573e 100644
--- a/phasor/matrix/DAG_algorithm_impl.py
+++ b/phasor/matrix/DAG_algorithm_impl.py
@@ -71,7 +71,8 @@ def reduceLUQ_row(
     if not np.all(np.isfinite(rvec)):
         print("NORMR: ", normr)
         assert(False)
-    bignodes_r = np.array(rvec) >= 1./(len(req[node]))**.5
+    #the slack is so that rounding can never leave a node without any "big" entry
+    bignodes_r = np.array(rvec) >= (1 - 1e-8)/(len(req[node]))**.5
     rcount = np.count_nonzero(bignodes_r)
     vprint("R: ", np.count_nonzero(bignodes_r), len(req[node]), bignodes_r[rvec_self_idx])
 
@@ -942,7 +943,7 @@ def reduceLUQ_col(
     if not np.all(np.isfinite(cvec)):
         print("NORMC: ", normc)
         assert(False)
-    bignodes_c = np.array(cvec) >= 1./(len(seq[node]))**.5
+    bignodes_c = np.array(cvec) >= (1 - 1e-8)/(len(seq[node]))**.5
     ccount = np.count_nonzero(bignodes_c)
     vprint(bignodes_c, cvec_self_idx, ccount)
     vprint("pe_C: ", np.count_nonzero(bignodes_c), len(seq[node]), bignodes_c[cvec_self_idx])
-- 
2.43.0


From 8ef3b214ade58a31a63e7b38fc7f0f6621d6261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 03/79] fix: LUQ solver must not pivot on array edges which are
 zero at some indices

---
 phasor/matrix/DAG_algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phasor/matrix/DAG_algorithm.py b/phasor/matrix/DAG_algorithm.py
index c1b097a..e781258 100644
--- a/phasor/matrix/DAG_algorithm.py
+++ b/phasor/matrix/DAG_algorithm.py
@@ -204,7 +204,8 @@ def mgraph_simplify_trivial(
 
         #check conditions for numerical stability, if they are bad, drop the node
 
-        if np.all(sedge_abssq == 0):
+        #zero at any index of an array edge can not be divided by
+        if np.any(sedge_abssq == 0):
             continue
 
         badness = 0
-- 
2.43.0


From c0ffb8c4ddf8809bcd7e830f9850282f644b5868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 04/79] fix: LUQ reflections must not divide by zero diagonals
 at some indices of array edges

---
 phasor/matrix/DAG_algorithm_impl.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/phasor/matrix/DAG_algorithm_impl.py b/phasor/matrix/DAG_algorithm_impl.py
index 4c7573e..aa945c5 100644
--- a/phasor/matrix/DAG_algorithm_impl.py
+++ b/phasor/matrix/DAG_algorithm_impl.py
@@ -19,6 +19,17 @@ def enorm(arr):
     return np.max(abssq(arr))
 
 
+def unit_phase(edge):
+    """
+    The phase of edge. Any phase will do for the reflections wherever the edge is zero
+    """
+    mag = abs(edge)
+    zero = (mag == 0)
+    if np.any(zero):
+        return np.where(zero, 1, edge) / np.where(zero, 1, mag)
+    return edge / mag
+
+
 def check_graph_at_node(SRABE, node):
     seq, req, req_alpha, seq_beta, edge_map, = SRABE
     for snode in seq[node]:
@@ -370,7 +381,7 @@ def householderREFL_ROW_OP(
     norm_rem_sq = norm_sq
     norm_orig_sq = norm_sq + abssq(edge)
     norm_orig = norm_orig_sq**.5
-    u_mod_edge = edge + norm_orig * edge / abs(edge)
+    u_mod_edge = edge + norm_orig * unit_phase(edge)
     norm_sq = norm_sq + abssq(u_mod_edge)
     norm = norm_sq**.5
     #print("NORM_ORG", norm_orig[0])
@@ -1056,7 +1067,7 @@ def householderREFL_COL_OP(
     norm_rem_sq = norm_sq
     norm_orig_sq = norm_sq + abssq(edge)
     norm_orig = norm_orig_sq**.5
-    u_mod_edge = edge + norm_orig * edge / abs(edge)
+    u_mod_edge = edge + norm_orig * unit_phase(edge)
     norm_sq = norm_sq + abssq(u_mod_edge)
     norm = norm_sq**.5
     #print("NORM_ORG", norm_orig[0])
-- 
2.43.0


From e2c33e85e4cce229fddb0b5b15f9215bac5e0acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:35 +0000
Subject: [PATCH 05/79] fix: LUQ solver must respond at requested nodes which
 have no couplings

---
 phasor/matrix/DAG_algorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phasor/matrix/DAG_algorithm.py b/phasor/matrix/DAG_algorithm.py
index e781258..cfb9ece 100644
--- a/phasor/matrix/DAG_algorithm.py
+++ b/phasor/matrix/DAG_algorithm.py
@@ -382,7 +382,9 @@ def inverse_solve_inplace(
             return
 
     if scattering:
-        keys = set(seq.keys()) | set(req.keys())
+        keys = set(seq.keys()) | set(req.keys()) | set(inputs_set) | set(outputs_set)
+        if inputs_map is not None:
+            keys.update(inputs_map.keys())
         for node in keys:
             if node in seq[node]:
                 edge_map[node, node] = edge_map[node, node] - 1
-- 
2.43.0


From 5a03de440642bb5f97695997ff1028d5fa6958a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 06/79] fix: electrical Cable could not be solved and took its
 length_ns in seconds

---
 phasor/electronics/elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/electronics/elements.py b/phasor/electronics/elements.py
index b99769c..1b25c1e 100644
--- a/phasor/electronics/elements.py
+++ b/phasor/electronics/elements.py
@@ -163,7 +163,7 @@ class Cable(Electrical2PortBase):
         return val
 
     def phase_advance(self, F):
-        return self.symbols.exp(-2 * self.symbols.i * self.symbols.pi * F * self.length_ns)
+        return self.symbols.math.exp(-2 * self.symbols.i * self.symbols.pi * F * self.length_ns * 1e-9)
 
     def system_setup_ports(self, ports_algorithm):
         #TODO could reduce these with more information about used S-matrix elements
-- 
2.43.0


From ded9730951477d295d76f196cfb4d3ebc3e50419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 07/79] fix: VAmp port setup used raw port keys as ports and
 could not be solved

---
 phasor/electronics/opamps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/electronics/opamps.py b/phasor/electronics/opamps.py
index 24ae1be..b2fdec9 100644
--- a/phasor/electronics/opamps.py
+++ b/phasor/electronics/opamps.py
@@ -119,10 +119,10 @@ class VAmp(elements.ElectricalElementBase):
             (self.in_n.i, self.in_n.o),
             (self.out.i, self.out.o),
         ):
-            for kfrom in ports_algorithm.port_update_get(port1.i):
-                ports_algorithm.port_coupling_needed(port2.o, kfrom)
-            for kto in ports_algorithm.port_update_get(port2.o):
-                ports_algorithm.port_coupling_needed(port1.i, kto)
+            for kfrom in ports_algorithm.port_update_get(port1):
+                ports_algorithm.port_coupling_needed(port2, kfrom)
+            for kto in ports_algorithm.port_update_get(port2):
+                ports_algorithm.port_coupling_needed(port1, kto)
         return
 
     def system_setup_coupling(self, matrix_algorithm):
-- 
2.43.0


From 142b0916ba569b885c0d8fdaeac25cdb3b381fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 08/79] fix: mirror backscatter must use the backscatter phase

---
 phasor/optics/mirror.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/optics/mirror.py b/phasor/optics/mirror.py
index 4f7f865..a926f8c 100644
--- a/phasor/optics/mirror.py
+++ b/phasor/optics/mirror.py
@@ -453,8 +453,8 @@ class Mirror(
                     R_cplgC  = R_cplg
 
                     if np.any(self.backscatter_phase_rad.val != 0):
-                        R_cplg   = R_cplg * self.symbols.math.exp(self.symbols.i * self.phase_rad.val)
-                        R_cplgC  = R_cplgC * self.symbols.math.exp(-self.symbols.i * self.phase_rad.val)
+                        R_cplg   = R_cplg * self.symbols.math.exp(self.symbols.i * self.backscatter_phase_rad.val)
+                        R_cplgC  = R_cplgC * self.symbols.math.exp(-self.symbols.i * self.backscatter_phase_rad.val)
 
                     modulations_fill_2optical_2classical(
                         system             = self.system,
-- 
2.43.0


From 0cc4938e5c5a524e6919b9650d390580e84d06ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 09/79] fix: mirror phase must be opposite on the two faces to
 conserve energy

---
 phasor/optics/mirror.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/phasor/optics/mirror.py b/phasor/optics/mirror.py
index a926f8c..83a655e 100644
--- a/phasor/optics/mirror.py
+++ b/phasor/optics/mirror.py
@@ -426,8 +426,10 @@ class Mirror(
                 R_cplgC  = R_cplg
 
                 if np.any(self.phase_rad.val != 0):
-                    R_cplg   = R_cplg * self.symbols.math.exp(self.symbols.i * self.phase_rad.val)
-                    R_cplgC  = R_cplgC * self.symbols.math.exp(-self.symbols.i * self.phase_rad.val)
+                    #opposite on the two faces, otherwise the mirror would not conserve energy
+                    R_phase_rad = mod_sign * self.phase_rad.val
+                    R_cplg   = R_cplg * self.symbols.math.exp(self.symbols.i * R_phase_rad)
+                    R_cplgC  = R_cplgC * self.symbols.math.exp(-self.symbols.i * R_phase_rad)
 
                 #everything scales with Stdcplg, so don't run if there are no reflections
                 if R_nonzero:
-- 
2.43.0


From 234dec28f1618c9f775cc5ad60bd83c0f8c4ace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 10/79] fix: PolSelector must couple the Bk_S port to the front

---
 phasor/optics/selectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/optics/selectors.py b/phasor/optics/selectors.py
index c77821e..24476f3 100644
--- a/phasor/optics/selectors.py
+++ b/phasor/optics/selectors.py
@@ -60,7 +60,7 @@ class PolSelector(
         for kfrom in matrix_algorithm.port_set_get(self.Bk_P.i):
             matrix_algorithm.port_coupling_insert(self.Bk_P.i, kfrom, self.po_Fr.o, kfrom, 1)
         for kfrom in matrix_algorithm.port_set_get(self.Bk_S.i):
-            matrix_algorithm.port_coupling_insert(self.Bk_P.i, kfrom, self.po_Fr.o, kfrom, 1)
+            matrix_algorithm.port_coupling_insert(self.Bk_S.i, kfrom, self.po_Fr.o, kfrom, 1)
         return
 
 
-- 
2.43.0


From 03973ccaee6b5b106cbbffa2c284946fcf071e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 11/79] fix: selectors must pass only the selected light from
 the back ports

---
 phasor/optics/selectors.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/phasor/optics/selectors.py b/phasor/optics/selectors.py
index 24476f3..67a6217 100644
--- a/phasor/optics/selectors.py
+++ b/phasor/optics/selectors.py
@@ -101,7 +101,8 @@ class GenericSelector(bases.OpticalCouplerBase, bases.SystemElementBase):
             assert(N_selections == 1)
         for pname, (port, key) in list(self.port_map.items()):
             for kfrom in ports_algorithm.port_update_get(port.i):
-                ports_algorithm.port_coupling_needed(self.po_Fr.o, kfrom)
+                if key & kfrom:
+                    ports_algorithm.port_coupling_needed(self.po_Fr.o, kfrom)
 
         for kto in ports_algorithm.port_update_get(self.po_Fr.o):
             N_selections = 0
@@ -113,7 +114,8 @@ class GenericSelector(bases.OpticalCouplerBase, bases.SystemElementBase):
                         break
         for pname, (port, key) in list(self.port_map.items()):
             for kto in ports_algorithm.port_update_get(port.o):
-                ports_algorithm.port_coupling_needed(self.po_Fr.i, kto)
+                if key & kto:
+                    ports_algorithm.port_coupling_needed(self.po_Fr.i, kto)
         return
 
     def system_setup_coupling(self, matrix_algorithm):
@@ -128,7 +130,8 @@ class GenericSelector(bases.OpticalCouplerBase, bases.SystemElementBase):
             assert(N_selections == 1)
         for pname, (port, key) in list(self.port_map.items()):
             for kfrom in matrix_algorithm.port_set_get(port.i):
-                matrix_algorithm.port_coupling_insert(port.i, kfrom, self.po_Fr.o, kfrom, 1)
+                if key & kfrom:
+                    matrix_algorithm.port_coupling_insert(port.i, kfrom, self.po_Fr.o, kfrom, 1)
         return
 
 
-- 
2.43.0


From 55ee9967ae4e16555072a4034ce1eaa79a38efe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 12/79] fix: PolarizingBeamsplitter could not be constructed

---
 phasor/optics/polarization.py | 80 +++++++++++++++++------------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/phasor/optics/polarization.py b/phasor/optics/polarization.py
index dc86ada..5584eee 100644
--- a/phasor/optics/polarization.py
+++ b/phasor/optics/polarization.py
@@ -455,49 +455,49 @@ class QuarterWavePlate(WavePlateMount):
 
 class PolarizingBeamsplitter(PolarizingMirror):
     #TODO allow loss
-    def __init__(
-        self,
-        pass_polarization = 'P',
-        selection_defect  = 0,
-        rejection_defect  = 0,
-        select_loss       = 0,
-        reject_loss       = 0,
-        AOI_deg           = 45,
-        **kwargs
-    ):
-        self.__init_ctree__(**kwargs)
-        bases.PTREE_ASSIGN(self).pass_polarization = pass_polarization
-        bases.PTREE_ASSIGN(self).selection_defect  = selection_defect
-        bases.PTREE_ASSIGN(self).rejection_defect  = rejection_defect
-        bases.PTREE_ASSIGN(self).select_loss       = select_loss
-        bases.PTREE_ASSIGN(self).reject_loss       = reject_loss
-
-        select_mirror = Mirror(
-            T_hr = 1 - self.selection_defect,
-            L_hr = self.reject_loss,
-            L_t  = self.select_loss,
-        )
+    @decl.dproperty
+    def pass_polarization(self, val = 'P'):
+        return self.ctree.setdefault('pass_polarization', val)
+
+    @decl.dproperty
+    def selection_defect(self, val = 0):
+        return self.ctree.setdefault('selection_defect', val)
+
+    @decl.dproperty
+    def rejection_defect(self, val = 0):
+        return self.ctree.setdefault('rejection_defect', val)
 
-        reject_mirror = Mirror(
-            T_hr = self.rejection_defect,
-            L_hr = self.reject_loss,
-            L_t  = self.select_loss,
+    @decl.dproperty
+    def select_loss(self, val = 0):
+        return self.ctree.setdefault('select_loss', val)
+
+    @decl.dproperty
+    def reject_loss(self, val = 0):
+        return self.ctree.setdefault('reject_loss', val)
+
+    @decl.dproperty
+    def AOI_deg(self, val = 45):
+        return val
+
+    def _pol_mirror(self, pol):
+        if self.pass_polarization.upper() == pol:
+            T_hr = 1 - self.selection_defect
+        else:
+            T_hr = self.rejection_defect
+        return Mirror(
+            T_hr    = T_hr,
+            L_hr    = self.reject_loss,
+            L_t     = self.select_loss,
+            AOI_deg = self.AOI_deg,
         )
 
-        if self.pass_polarization.upper() == 'P':
-            super().__init__(
-                mirror_P = select_mirror,
-                mirror_S = reject_mirror,
-                AOI_deg  = AOI_deg,
-                **kwargs
-            )
-        elif self.pass_polarization.upper() == 'S':
-            super().__init__(
-                mirror_S = select_mirror,
-                mirror_P = reject_mirror,
-                AOI_deg  = AOI_deg,
-                **kwargs
-            )
+    @decl.dproperty
+    def mirror_P(self):
+        return self._pol_mirror('P')
+
+    @decl.dproperty
+    def mirror_S(self):
+        return self._pol_mirror('S')
 
 
 def polarization_opposite(pol_str):
-- 
2.43.0


From 3b4b24840b061956ad9b8263fbbb23e97491b8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 13/79] fix: NonlinearCrystal could not be constructed with its
 default length

---
 phasor/optics/nonlinear_crystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/optics/nonlinear_crystal.py b/phasor/optics/nonlinear_crystal.py
index cdef936..27b6ed8 100644
--- a/phasor/optics/nonlinear_crystal.py
+++ b/phasor/optics/nonlinear_crystal.py
@@ -49,7 +49,7 @@ class NonlinearCrystal(
     #    val = self.ctree.setdefault('length_mm', val)
     #    return val
 
-    _length_default = '10mm'
+    _length_default = ('length_mm', 10)
     length = standard_attrs.generate_length()
 
     @declarative.dproperty
-- 
2.43.0


From 6c17121691ef7f0faa0556889fcb28ba6485ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 14/79] fix: MagicPD must request the light which passes it
 from its back

---
 phasor/optics/photodiode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phasor/optics/photodiode.py b/phasor/optics/photodiode.py
index 0c9b1ab..d50bc99 100644
--- a/phasor/optics/photodiode.py
+++ b/phasor/optics/photodiode.py
@@ -153,6 +153,8 @@ class MagicPD(
             ports_algorithm.port_coupling_needed(pmap[self.po_Bk.i][0], kfrom)
         for kto in ports_algorithm.port_update_get(self.po_Bk.o):
             ports_algorithm.port_coupling_needed(pmap[self.po_Bk.o][0], kto)
+        for kto in ports_algorithm.port_update_get(self.po_Fr.o):
+            ports_algorithm.port_coupling_needed(pmap[self.po_Fr.o][0], kto)
         return
 
     def system_setup_coupling(self, matrix_algorithm):
-- 
2.43.0


From 51421df0b28e6ad5ee3cf8d6b8950578a32aada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 15/79] fix: NoiseReadout must broadcast the contributions of
 its sources

---
 phasor/readouts/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/readouts/noise.py b/phasor/readouts/noise.py
index b170aaa..8493e0c 100644
--- a/phasor/readouts/noise.py
+++ b/phasor/readouts/noise.py
@@ -141,7 +141,7 @@ class NoiseReadout(base.SystemElementBase):
                             if not np.all(np.isfinite(pspec_tot)):
                                 print("BADNESS: ", nobj.name_system, pspec_tot)
                             else:
-                                nsum += pspec_tot
+                                nsum = nsum + pspec_tot
                                 ncollect[nobj][pnameP, pnameN] = ncollect[nobj][pnameP, pnameN] + pspec_tot
                 nsums[pnameP, pnameN] = nsum
         return declarative.Bunch(
-- 
2.43.0


From 630f80423c8a0714c03a94c67f784908fa035e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:24 +0000
Subject: [PATCH 16/79] fix: systems with multiply bonded ports could not be
 regenerated after being solved

---
 phasor/system/system.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/phasor/system/system.py b/phasor/system/system.py
index f837310..73be35b 100644
--- a/phasor/system/system.py
+++ b/phasor/system/system.py
@@ -319,9 +319,11 @@ class BGSystem(RootElement):
             #print("INCLUDE LST: ", self._include_lst)
             self._autoterminate()
 
-        for element in self.targets_recurse(VISIT.bond_completion):
-            #print("Bond Completion", element)
-            pass
+        #connections made for multiple bonds are not user inserts, so must not be carried over by regenerate
+        with self.building:
+            for element in self.targets_recurse(VISIT.bond_completion):
+                #print("Bond Completion", element)
+                pass
 
         bad_completions = dict()
         while self._bond_completions_raw:
-- 
2.43.0


From be26dd263e5cbbb6586792e166ecd6704451fd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 17/79] fix: regenerating a system twice must not lose its
 pending inserts

---
 phasor/base/autograft.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phasor/base/autograft.py b/phasor/base/autograft.py
index ca1e63a..219aa75 100644
--- a/phasor/base/autograft.py
+++ b/phasor/base/autograft.py
@@ -543,6 +543,8 @@ class RootElement(Element):
     _overridable_object_kwargs = None
 
     def regenerate(self, ctree = None, **kwargs):
+        #the inserts from a previous regeneration may still be pending
+        self._complete()
         usekwargs = dict(self._overridable_object_kwargs)
         if ctree is not None:
             usekwargs['ctree'] = ctree
-- 
2.43.0


From d8e1b225bb9028f242b92cf66e8a04bbe2dcefb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 18/79] fix: optical bonds must survive a second regeneration

---
 phasor/optics/ports.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phasor/optics/ports.py b/phasor/optics/ports.py
index 05e2a65..ff1b7b1 100644
--- a/phasor/optics/ports.py
+++ b/phasor/optics/ports.py
@@ -68,6 +68,7 @@ class OpticalPort(OpticalPortRaw, bases.SystemElementBase):
                     #auto-insert bond partner as it was inserted during building
                     getnew = self.root[prein._bond_partner.name_system]
                     self._bond_partner = getnew
+                    self._building_bonded = False
                     assert(self.root is getnew.root)
         return
 
-- 
2.43.0


From 3b651ca1ab3e87aa8b5c8739fe2b9c7b56a6a953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 19/79] fix: ForceReadout must see all of the signals at its
 terminal

---
 phasor/mechanical/multimeter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/phasor/mechanical/multimeter.py b/phasor/mechanical/multimeter.py
index dd8f778..9d6f8f2 100644
--- a/phasor/mechanical/multimeter.py
+++ b/phasor/mechanical/multimeter.py
@@ -76,6 +76,8 @@ class ForceReadout(readouts.DCReadout, elements.MechanicalElementBase):
 
     @decl.dproperty
     def terminal(self, port):
+        self.system.own_port_virtual(self, port.i)
+        self.system.own_port_virtual(self, port.o)
         return port
 
     @decl.dproperty
@@ -91,8 +93,8 @@ class ForceReadout(readouts.DCReadout, elements.MechanicalElementBase):
         #this linear port into the readout ports
         ports = [self.terminal.i, self.terminal.o]
         for port1 in ports:
-            #for kfrom in ports_algorithm.port_update_get(port1):
-            #    ports_algorithm.port_coupling_needed(self.d.o, kfrom)
+            for kfrom in ports_algorithm.port_update_get(port1):
+                ports_algorithm.port_coupling_needed(self.F.o, kfrom)
             for kto in ports_algorithm.port_update_get(self.F.o):
                 ports_algorithm.port_coupling_needed(port1, kto)
         return
-- 
2.43.0


From 639bdaf047c4d2df254176c4978d59d54030550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:36 +0000
Subject: [PATCH 20/79] fix: nonlinear crystal must count each pair of summed
 fields once

---
 phasor/optics/nonlinear_crystal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/optics/nonlinear_crystal.py b/phasor/optics/nonlinear_crystal.py
index 27b6ed8..fa5a773 100644
--- a/phasor/optics/nonlinear_crystal.py
+++ b/phasor/optics/nonlinear_crystal.py
@@ -202,8 +202,8 @@ class NonlinearCrystal(
                         if len(F_list) > 1:
                             raise RuntimeError("Can't Currently do nonlinear optics on multiply composite wavelengths")
                         F, n = F_list[0]
-                        #factor of two since this injects twice
-                        if kfrom == kfrom2:
+                        #factor of two since sum generation injects twice, once for each order of the pair
+                        if qkey == qkey2:
                             dLt[(port.i, kto)].append(
                                 (n * G / 2, (port.i, kfrom2), (port.i, kfrom))
                             )
-- 
2.43.0


From 272902f72082632182a4be851835e69f0df66e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 21/79] fix: frequency updates of ports owned both directly and
 virtually were dropped, depending on the order of the worklist

---
 phasor/system/ports_algorithm.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/phasor/system/ports_algorithm.py b/phasor/system/ports_algorithm.py
index 7475694..87de2d7 100644
--- a/phasor/system/ports_algorithm.py
+++ b/phasor/system/ports_algorithm.py
@@ -75,15 +75,10 @@ class PortUpdatesAlgorithm(object):
         assert(self._current_element is not None)
         element = self._current_element
         self._current_element = None
-        for port in self.system.owners_ports.get(element, []):
-            update = self.port_cplgs_update[element, port]
-            updateX = self.port_cplgs_updateX[port]
-            self.port_cplgs[port].update(update)
-            update.clear()
-            #swap in the new updates
-            self.port_cplgs_update[element, port] = updateX
-            self.port_cplgs_updateX[port] = update
-        for port in self.system.owners_ports_virtual[element]:
+        #ports can be owned both directly and virtually, but must only be swapped once
+        ports_owned = set(self.system.owners_ports.get(element, []))
+        ports_owned.update(self.system.owners_ports_virtual[element])
+        for port in ports_owned:
             update = self.port_cplgs_update[element, port]
             updateX = self.port_cplgs_updateX[port]
             self.port_cplgs[port].update(update)
@@ -129,7 +124,10 @@ class PortUpdatesAlgorithm(object):
 
                 self.owners_update.add(owner)
                 for Vowner in self.system.port_owners_virtual[pto]:
-                    v = self.port_cplgs_update[Vowner, pto]
+                    if Vowner is self._current_element:
+                        v = self.port_cplgs_updateX[pto]
+                    else:
+                        v = self.port_cplgs_update[Vowner, pto]
                     v.add(kto)
                     self.owners_update.add(Vowner)
         return
-- 
2.43.0


From 298e5ab03ed85eb69bbdba14c15099504ae641f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 22/79] fix: drive frequencies requested from pairs of
 unrelated optical fields depended on the order of the worklist

---
 phasor/optics/nonlinear_utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phasor/optics/nonlinear_utilities.py b/phasor/optics/nonlinear_utilities.py
index a693ea5..c3ebb6b 100644
--- a/phasor/optics/nonlinear_utilities.py
+++ b/phasor/optics/nonlinear_utilities.py
@@ -105,7 +105,8 @@ def ports_fill_2optical_2classical(
         for kfrom1, kfrom2 in ports_algorithm.symmetric_update(
                 pfrom,
                 ptoOpt,
-                subset_second = subset_second
+                subset_second = subset_second,
+                subset_first  = subset_second,
         ):
             if kfrom1.contains(ports.LOWER):
                 if not kfrom2.contains(ports.LOWER):
-- 
2.43.0


From eee09025184b99b42e2c9a2968a1d57e959bc5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 23/79] fix: TransferFunctionSISO stored the builtin filter
 instead of its filter_func, Gain without a gain used its method

---
 phasor/signals/siso_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phasor/signals/siso_filter.py b/phasor/signals/siso_filter.py
index 92c10fa..1c9ab57 100644
--- a/phasor/signals/siso_filter.py
+++ b/phasor/signals/siso_filter.py
@@ -103,7 +103,7 @@ class TransferFunctionSISO(TransferFunctionSISOBase):
             **kwargs
     ):
         super().__init__(**kwargs)
-        PTREE_ASSIGN(self).filter = filter
+        PTREE_ASSIGN(self).filter = filter_func
         return
 
     def filter_func(self, freq):
@@ -124,6 +124,7 @@ class Integrator(TransferFunctionSISOBase):
 
 
 class Gain(TransferFunctionSISOBase):
+    @declarative.dproperty
     def gain(self, val = 1):
         return val
 
-- 
2.43.0


From 14ca33767f0e7509226e70dd4139441e9f03a39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 24/79] fix: feed-through of StateSpaceModel went to its states
 instead of its outputs

---
 phasor/signals/state_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/signals/state_space.py b/phasor/signals/state_space.py
index e39890c..1da5a56 100644
--- a/phasor/signals/state_space.py
+++ b/phasor/signals/state_space.py
@@ -104,7 +104,7 @@ class StateSpaceModel(
                         ports_algorithm.port_coupling_needed(p_state.node, kfrom)
                 #in 2 out (D)
                 for idx_out in range(N_out):
-                    p_out = self.ports_states[idx_out]
+                    p_out = self.ports_out[idx_out]
                     cplg = self.D[idx_out, idx_in]
                     if cplg != 0:
                         ports_algorithm.port_coupling_needed(p_out.o, kfrom)
@@ -179,7 +179,7 @@ class StateSpaceModel(
                         matrix_algorithm.port_coupling_insert(p_in.i, kfrom, p_state.node, kfrom, D_cplg)
                 #in 2 out (D)
                 for idx_out in range(N_out):
-                    p_out = self.ports_states[idx_out]
+                    p_out = self.ports_out[idx_out]
                     cplg = self.D[idx_out, idx_in]
                     if cplg != 0:
                         #print("    ", p_out)
-- 
2.43.0


From 0aaa83c033cca80dcf41f53d7210c9a0ec215c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 25/79] fix: MatrixAmplifier and TransferFunctionMIMO did not
 own their ports and lost outputs

---
 phasor/signals/amplifiers.py  | 4 ++--
 phasor/signals/mimo_filter.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/signals/amplifiers.py b/phasor/signals/amplifiers.py
index c3fdda5..ada61ae 100644
--- a/phasor/signals/amplifiers.py
+++ b/phasor/signals/amplifiers.py
@@ -101,9 +101,9 @@ class MatrixAmplifier(bases.CouplerBase, bases.SystemElementBase):
 
         for (iname, oname), xfer in list(self.port_pair_gains.items()):
             if iname not in self.ps_In:
-                self.ps_In[iname] = ports.SignalInPort(sname = iname)
+                self.ps_In[iname] = self.insert(ports.SignalInPort(sname = iname), 'ps_In_{0}'.format(iname))
             if oname not in self.O:
-                self.O[iname] = ports.SignalOutPort(sname = oname)
+                self.O[oname] = self.insert(ports.SignalOutPort(sname = oname), 'O_{0}'.format(oname))
         return
 
     def system_setup_ports(self, ports_algorithm):
diff --git a/phasor/signals/mimo_filter.py b/phasor/signals/mimo_filter.py
index 8775bad..2fbeed9 100644
--- a/phasor/signals/mimo_filter.py
+++ b/phasor/signals/mimo_filter.py
@@ -35,9 +35,9 @@ class TransferFunctionMIMO(CouplerBase, SystemElementBase):
 
         for (iname, oname), xfer in list(self.port_pair_xfers.items()):
             if iname not in self.ps_In:
-                self.ps_In[iname] = ports.SignalInPort(sname = iname)
+                self.ps_In[iname] = self.insert(ports.SignalInPort(sname = iname), 'ps_In_{0}'.format(iname))
             if oname not in self.O:
-                self.O[iname] = ports.SignalOutPort(sname = oname)
+                self.O[oname] = self.insert(ports.SignalOutPort(sname = oname), 'O_{0}'.format(oname))
         return
 
     def system_setup_ports(self, ports_algorithm):
-- 
2.43.0


From 6ca18600c41dbb31e5965345ce1fa545aba3825b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 26/79] fix: the maximum frequency test added unit attributes
 instead of values

---
 phasor/system/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/system/system.py b/phasor/system/system.py
index 73be35b..85d4990 100644
--- a/phasor/system/system.py
+++ b/phasor/system/system.py
@@ -291,7 +291,7 @@ class BGSystem(RootElement):
         #TODO put this logic in a subobject
         freq_Hz = 0
         for F, n in list(key[ClassicalFreqKey].F_dict.items()):
-            freq_Hz += n * F.F_Hz
+            freq_Hz += n * F.F_Hz.val
         if np.any(freq_Hz < max_freq):
             return False
         return True
-- 
2.43.0


From 65c8fbfbc1a151e3189194cf4f86e71679b2800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 27/79] fix: products with a DC signal were counted by half in
 Mixer and Modulator

---
 phasor/signals/mixer.py | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/phasor/signals/mixer.py b/phasor/signals/mixer.py
index c228f24..da4b396 100644
--- a/phasor/signals/mixer.py
+++ b/phasor/signals/mixer.py
@@ -71,7 +71,21 @@ class Mixer(bases.SignalElementBase):
                 freq_LO = self.system.classical_frequency_extract(kfrom1)
                 kto = ports.DictKey({ports.ClassicalFreqKey: f_new})
 
-                if not f_new.DC_is():
+                if f1.DC_is() or f2.DC_is():
+                    #DC is the full value, rather than the amplitude of a conjugate pair
+                    matrix_algorithm.nonlinear_triplet_insert(
+                        (self.LO.i,  kfrom1),
+                        (self.ps_In.i,   kfrom2),
+                        (self.ps_R_I.o, kto),
+                        1,
+                    )
+                    matrix_algorithm.nonlinear_triplet_insert(
+                        (self.LO.i,  kfrom1),
+                        (self.ps_In.i,   kfrom2),
+                        (self.ps_R_Q.o, kto),
+                        self.symbols.i * np.sign(freq_LO),
+                    )
+                elif not f_new.DC_is():
                     #TODO add inhomogenous term
                     matrix_algorithm.nonlinear_triplet_insert(
                         (self.LO.i,  kfrom1),
@@ -194,7 +208,14 @@ class Modulator(bases.SignalElementBase):
 
                 kto = ports.DictKey({ports.ClassicalFreqKey: f_new})
 
-                if not f_new.DC_is():
+                if f1.DC_is() or f2.DC_is():
+                    matrix_algorithm.nonlinear_triplet_insert(
+                        (self.ps_In.i,  kfrom1),
+                        (self.Mod_amp.i,   kfrom2),
+                        (self.ps_Out.o, kto),
+                        cplg,
+                    )
+                elif not f_new.DC_is():
                     matrix_algorithm.nonlinear_triplet_insert(
                         (self.ps_In.i,  kfrom1),
                         (self.Mod_amp.i,   kfrom2),
@@ -217,7 +238,14 @@ class Modulator(bases.SignalElementBase):
 
                 kto = ports.DictKey({ports.ClassicalFreqKey: f_new})
 
-                if not f_new.DC_is():
+                if f1.DC_is() or f2.DC_is():
+                    matrix_algorithm.nonlinear_triplet_insert(
+                        (self.ps_In.i,  kfrom1),
+                        (self.Mod_phase.i,   kfrom2),
+                        (self.ps_Out.o, kto),
+                        cplg * self.symbols.i * np.sign(freq_In),
+                    )
+                elif not f_new.DC_is():
                     matrix_algorithm.nonlinear_triplet_insert(
                         (self.ps_In.i,  kfrom1),
                         (self.Mod_phase.i,   kfrom2),
-- 
2.43.0


From 12886bd07f22910f2346e9c402378ad5c930ff59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 28/79] fix: alm interfaces and mirrors use the same (y,
 n*angle) convention as Space, thick optics no longer divide by the index
 twice

---
 phasor/alm/bases.py      | 66 ++++++++++++++--------------------------
 phasor/alm/composites.py |  1 +
 2 files changed, 24 insertions(+), 43 deletions(-)

diff --git a/phasor/alm/bases.py b/phasor/alm/bases.py
index 6406e6e..6634223 100644
--- a/phasor/alm/bases.py
+++ b/phasor/alm/bases.py
@@ -253,72 +253,52 @@ class LensInterface(ThinBase):
 
     R_m = attrs.generate_R_m()
 
+    #the matrices act on (y, n*angle), like those of Space, so the reversed interface has the same matrix
     @declarative.mproperty
     def matrix(self):
         n_from = self.substrate_from.n(self)
         n_to   = self.substrate_to.n(self)
         if self.R_m.val is not None:
-            if not self.env_reversed:
-                mat = np.matrix([
-                    [1, 0],
-                    [(n_from/n_to - 1)/self.R_m.val, n_from / n_to],
-                ])
-            else:
-                mat = np.matrix([
-                    [1, 0],
-                    [(n_to/n_from - 1)/-self.R_m.val, n_to / n_from],
-                ])
+            mat = np.matrix([
+                [1, 0],
+                [(n_from - n_to)/self.R_m.val, 1],
+            ])
         else:
-            if not self.env_reversed:
-                mat = np.matrix([
-                    [1 , 0],
-                    [0 , n_from / n_to],
-                ])
-            else:
-                mat = np.matrix([
-                    [1 , 0],
-                    [0 , n_to / n_from],
-                ])
+            mat = np.matrix([
+                [1 , 0],
+                [0 , 1],
+            ])
         return mat
 
     @declarative.mproperty
     def matrix_inv(self):
-        n_to = self.substrate_from.n(self)
-        n_from = self.substrate_to.n(self)
+        n_from = self.substrate_from.n(self)
+        n_to   = self.substrate_to.n(self)
         if self.R_m.val is not None:
-            if not self.env_reversed:
-                mat = np.matrix([
-                    [1, 0],
-                    [(n_from/n_to - 1)/self.R_m.val, n_from / n_to],
-                ])
-            else:
-                mat = np.matrix([
-                    [1, 0],
-                    [(n_to/n_from - 1)/-self.R_m.val, n_to / n_from],
-                ])
+            mat = np.matrix([
+                [1, 0],
+                [(n_to - n_from)/self.R_m.val, 1],
+            ])
         else:
-            if not self.env_reversed:
-                mat = np.matrix([
-                    [1 , 0],
-                    [0 , n_from / n_to],
-                ])
-            else:
-                mat = np.matrix([
-                    [1 , 0],
-                    [0 , n_to / n_from],
-                ])
+            mat = np.matrix([
+                [1 , 0],
+                [0 , 1],
+            ])
         return mat
 
 
 class Mirror(ThinBase):
+    substrate = substrate_environment
+
     R_m = attrs.generate_R_m()
 
     @declarative.mproperty
     def matrix(self):
+        n = self.substrate.n(self)
         if self.R_m.val is not None:
             mat = np.matrix([
                 [1,      0],
-                [-2/self.R_m.val, 1],
+                [-2 * n / self.R_m.val, 1],
             ])
         else:
             mat = np.matrix([
diff --git a/phasor/alm/composites.py b/phasor/alm/composites.py
index 15e43f8..b7e28ed 100644
--- a/phasor/alm/composites.py
+++ b/phasor/alm/composites.py
@@ -195,6 +195,7 @@ class PLCXMirror(system.SystemStack):
     def mirror(self):
         return bases.Mirror(
             ROC_preferred = self.ROC_preferred,
+            substrate = self.substrate_inner,
             loc_m = None,
         )
 
-- 
2.43.0


From c0f011452376ebf76d92f6d345bc6d54aa233a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 29/79] fix: alm objects at the same location can be sorted

---
 phasor/alm/system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phasor/alm/system.py b/phasor/alm/system.py
index 23569b3..9e27d97 100644
--- a/phasor/alm/system.py
+++ b/phasor/alm/system.py
@@ -78,7 +78,8 @@ class System(
             if isinstance(ch, bases.MatrixAtsBase):
                 if ch.loc_m.ref is not None:
                     loc_ch_list.append((ch.loc_m.ref, ch))
-        loc_ch_list.sort()
+        #objects at the same location keep their insertion order
+        loc_ch_list.sort(key = lambda loc_ch : loc_ch[0])
         #print(loc_ch_list)
         clist = [ch for loc, ch in loc_ch_list]
         return clist
-- 
2.43.0


From 9e2c60a8c523f710f34b9f6cc11113807013e167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 30/79] fix: free space beyond the ends of an alm layout has
 the index of the environment

---
 phasor/alm/system.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/alm/system.py b/phasor/alm/system.py
index 9e27d97..fa99424 100644
--- a/phasor/alm/system.py
+++ b/phasor/alm/system.py
@@ -356,7 +356,7 @@ class System(
                 else:
                     for subcomp in reversed(self.filled_list[:tidx1_outer]):
                         mat = subcomp.matrix_inv * mat
-                    mat = matrix_space((z_m - self.positions_list[0])) * mat
+                    mat = matrix_space((z_m - self.positions_list[0]) / self.root.env_substrate.n(self)) * mat
             elif z_m > pos_R:
                 mat = comp.matrix_between(tidx1_inner, TargetRight)
                 idx_z_comp = np.searchsorted(
@@ -373,7 +373,7 @@ class System(
                 else:
                     for subcomp in self.filled_list[tidx1_outer+1:]:
                         mat = subcomp.matrix * mat
-                    mat = matrix_space(z_m - self.positions_list[-1]) * mat
+                    mat = matrix_space((z_m - self.positions_list[-1]) / self.root.env_substrate.n(self)) * mat
             else:
                 return comp.matrix_target_to_z_single(tidx1_inner, z_m - pos_L, invert = invert)
             return mat
@@ -403,13 +403,13 @@ class System(
             z_m, side = 'right',
         ) - 1
         if idx_m < 0:
-            mat = matrix_space(L_m = z_m)
+            mat = matrix_space(z_m / self.root.env_substrate.n(self))
         elif idx_m < len(self.filled_list):
             mat = mat_list[idx_m]
             comp = self.filled_list[idx_m]
             mat = comp.matrix_target_to_z_single(TargetLeft, z_m - self.positions_list[idx_m]) * mat
         else:
-            mat = matrix_space(z_m - self.positions_list[-1]) * self.matrix
+            mat = matrix_space((z_m - self.positions_list[-1]) / self.root.env_substrate.n(self)) * self.matrix
         return mat
 
     def system_data_targets(self, typename):
-- 
2.43.0


From d5fd746a602bedca060949785f1b660d6bd965fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 31/79] fix: alm beams and matrices at unsorted positions

---
 phasor/alm/bases.py        | 7 ++++---
 phasor/alm/measurements.py | 6 +++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/phasor/alm/bases.py b/phasor/alm/bases.py
index 6634223..811abc6 100644
--- a/phasor/alm/bases.py
+++ b/phasor/alm/bases.py
@@ -112,10 +112,11 @@ class MatrixAtsBase(Element):
             z_m = z_m[sidx]
             idx_remux = idx_remux[:, sidx]
             self.matrix_target_to_z_linsorted(tidx1, z_m, fill_reshape, invert = invert)
-            fill = fill_reshape[(slice(None), slice(None)) + tuple(idx_remux[i] for i in range(idx_remux.shape[0]))]
-            return
+            #copied as the reshaped array may be a view of the one being filled
+            fill[(slice(None), slice(None)) + tuple(idx_remux[i] for i in range(idx_remux.shape[0]))] = fill_reshape.copy()
+            return fill
         else:
-            return self.matrix_target_to_z_single(z_m)
+            return self.matrix_target_to_z_single(tidx1, z_m, invert = invert)
 
     def matrix_target_to_z_linsorted(self, tidx1, z_m, fill, invert = False):
         it = np.nditer(z_m, flags = ['multi_index'])
diff --git a/phasor/alm/measurements.py b/phasor/alm/measurements.py
index 7ab75bd..15d7d77 100644
--- a/phasor/alm/measurements.py
+++ b/phasor/alm/measurements.py
@@ -182,7 +182,8 @@ class Measurements(Element):
             fill = np.empty((2, 2) + z_m.shape)
             mat = self.layout.matrix_target_to_z_linsorted(tidx_beam, z_m, fill)
         else:
-            mat = self.matrix_at(z_m)
+            fill = np.empty((2, 2) + z_m.shape)
+            mat = self.layout.matrix_target_to_z(tidx_beam, z_m, fill)
         target_obj = self.layout.target_obj(tidx_beam)
         q_in = target_obj.beam_q
         q = q_in.propagate_matrix(mat)
@@ -196,6 +197,9 @@ class Measurements(Element):
         elif np_check_sorted(z_m):
             fill = np.empty((2, 2) + z_m.shape)
             mat = self.layout.matrix_target_to_z_linsorted(tidx, z_m, fill)
+        else:
+            fill = np.empty((2, 2) + z_m.shape)
+            mat = self.layout.matrix_target_to_z(tidx, z_m, fill)
         return mat
 
     def mat_target_between(self, tname1, tname2):
-- 
2.43.0


From 3fa5fd6d46f20cecce27f0580fae619de2efdd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 32/79] fix: reversed ABCDGeneric is reversed

---
 phasor/alm/bases.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phasor/alm/bases.py b/phasor/alm/bases.py
index 811abc6..aa791a2 100644
--- a/phasor/alm/bases.py
+++ b/phasor/alm/bases.py
@@ -384,5 +384,8 @@ class ABCDGeneric(ThinBase):
 
     @declarative.mproperty
     def matrix(self):
-        return np.matrix([[self.A.val, self.B.val], [self.C.val, self.D]])
+        if not self.env_reversed:
+            return np.matrix([[self.A.val, self.B.val], [self.C.val, self.D]])
+        else:
+            return np.matrix([[self.D, self.B.val], [self.C.val, self.A.val]])
 
-- 
2.43.0


From 5c99d08229e7c273666c1978ba6667c38543c993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 33/79] fix: the spaces of an alm layout are updated when
 objects are inserted after a query

---
 phasor/alm/system.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/phasor/alm/system.py b/phasor/alm/system.py
index fa99424..c85f86e 100644
--- a/phasor/alm/system.py
+++ b/phasor/alm/system.py
@@ -88,10 +88,11 @@ class System(
     @invalidate_auto
     def component_pos_pairings(self):
         with self.building:
-            try:
-                del self.ctree['_internal']
-            except KeyError:
-                pass
+            #the spaces are generated again, so the values of the previous ones must be forgotten
+            for bunch_name in ('full', 'immediate'):
+                bunch = self._internal.ctree.extractidx(bunch_name)
+                for name in list(bunch.keys()):
+                    del bunch[name]
             components_pos = []
             components_filled = []
             loc_m = 0
-- 
2.43.0


From 29c6e80263563d3a02bfe1574d3c440ddae76cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 34/79] fix: lossy mechanical springs had gain at negative
 frequencies

---
 phasor/mechanical/passive.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/phasor/mechanical/passive.py b/phasor/mechanical/passive.py
index d6697ce..97fe14c 100644
--- a/phasor/mechanical/passive.py
+++ b/phasor/mechanical/passive.py
@@ -59,7 +59,7 @@ class SpringBase(object):
                 #this formula is the conversion of loss angle to equivalent viscous damping
                 return noise.DisplacementFluctuation(
                     port = self.pm_A,
-                    dsq_Hz_by_freq = lambda F : 4 * self.symbols.temp_K * self.symbols.kB_J_K * self.loss_angle_by_freq(F)  / ((2 * self.symbols.pi * F) * self.elasticity_N_m),
+                    dsq_Hz_by_freq = lambda F : 4 * self.symbols.temp_K * self.symbols.kB_J_K * self.loss_angle_by_freq(abs(F)) / ((2 * self.symbols.pi * abs(F)) * self.elasticity_N_m * (1 + self.loss_angle_by_freq(abs(F))**2)),
                     sided = 'one-sided',
                 )
         return None
@@ -67,7 +67,8 @@ class SpringBase(object):
     def mobility_by_freq(self, F):
         #TODO
         if self.loss_angle_by_freq is not None:
-            return self.elasticity_N_m * (1 + self.symbols.i * self.loss_angle_by_freq(F))
+            #the sign maintains the conjugate symmetry of the (real) spring between positive and negative frequency
+            return self.elasticity_N_m * (1 + self.symbols.i * np.sign(F) * self.loss_angle_by_freq(abs(F)))
         else:
             return self.elasticity_N_m
 
-- 
2.43.0


From 364bb9a6b9967f7cca13957d57bceaaa597c3d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 35/79] fix: balanced current and force sources pushed both of
 their ends the same way

---
 phasor/electronics/sources.py | 4 ++--
 phasor/mechanical/sources.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/electronics/sources.py b/phasor/electronics/sources.py
index 94bd3a1..f1fc6bc 100644
--- a/phasor/electronics/sources.py
+++ b/phasor/electronics/sources.py
@@ -293,7 +293,7 @@ class CurrentSourceBalanced(smatrix.SMatrix2PortBase):
         matrix_algorithm.coherent_sources_insert(
             self.pe_B.o,
             self.fkey,
-            self.Ze_termination * self.I_DC,
+            -self.Ze_termination * self.I_DC,
         )
 
         for kfrom in matrix_algorithm.port_set_get(self.ps_In.i):
@@ -309,7 +309,7 @@ class CurrentSourceBalanced(smatrix.SMatrix2PortBase):
                 kfrom,
                 self.pe_B.o,
                 kfrom,
-                self.Ze_termination,
+                -self.Ze_termination,
             )
 
 
diff --git a/phasor/mechanical/sources.py b/phasor/mechanical/sources.py
index 3e60096..e09d0e2 100644
--- a/phasor/mechanical/sources.py
+++ b/phasor/mechanical/sources.py
@@ -293,7 +293,7 @@ class ForceSourceBalanced(smatrix.SMatrix2PortBase):
         matrix_algorithm.coherent_sources_insert(
             self.pm_B.o,
             self.fkey,
-            self.Zm_termination * self.F_DC,
+            -self.Zm_termination * self.F_DC,
         )
 
         for kfrom in matrix_algorithm.port_set_get(self.F.i):
@@ -309,7 +309,7 @@ class ForceSourceBalanced(smatrix.SMatrix2PortBase):
                 kfrom,
                 self.pm_B.o,
                 kfrom,
-                self.Zm_termination,
+                -self.Zm_termination,
             )
 
 
-- 
2.43.0


From 5338b913098aaeb497c6f18976a7a632b6f08289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 36/79] fix: PZTMountedGrounded exchanged the displacement and
 the force of its mechanical port

---
 phasor/transducers/PZT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/transducers/PZT.py b/phasor/transducers/PZT.py
index 773431f..f1517a2 100644
--- a/phasor/transducers/PZT.py
+++ b/phasor/transducers/PZT.py
@@ -73,11 +73,11 @@ class PZTMountedGrounded(
 
         def Smm_by_freq(F_Hz):
             s = self.symbols.i2pi * F_Hz
-            return ((Z_e*Z_m*d**2*k*s - (Z_m - k)*(C*Z_e*s + 1))/(-Z_e*Z_m*d**2*k*s + Z_m*(C*Z_e*s + 1) + k*(C*Z_e*s + 1)))
+            return (-(Z_e*Z_m*d**2*k*s - (Z_m - k)*(C*Z_e*s + 1))/(-Z_e*Z_m*d**2*k*s + Z_m*(C*Z_e*s + 1) + k*(C*Z_e*s + 1)))
 
         def Sem_by_freq(F_Hz):
             s = self.symbols.i2pi * F_Hz
-            return (2*Z_m*d*k/(-C*Z_e*Z_m*s - C*Z_e*k*s + Z_e*Z_m*d**2*k*s - Z_m - k))
+            return (-2*Z_m*d*k/(-C*Z_e*Z_m*s - C*Z_e*k*s + Z_e*Z_m*d**2*k*s - Z_m - k))
 
         def Sme_by_freq(F_Hz):
             s = self.symbols.i2pi * F_Hz
-- 
2.43.0


From e4b39d6323b1d5183be5bd045a3959139e4a8b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 37/79] fix: current and force readouts and differential
 readouts missed noise added at their own terminal

---
 phasor/electronics/multimeter.py | 8 ++++----
 phasor/mechanical/multimeter.py  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/phasor/electronics/multimeter.py b/phasor/electronics/multimeter.py
index ed3aa11..a3e46bd 100644
--- a/phasor/electronics/multimeter.py
+++ b/phasor/electronics/multimeter.py
@@ -51,8 +51,8 @@ class VoltageReadout(readouts.DCReadout, elements.ElectricalElementBase):
             self.system.ports_post_get(self.terminal.o) : 1,
         }
         if self.terminal_N is not None:
-            pcplgs[self.terminal_N.i] = -1
-            pcplgs[self.terminal_N.o] = -1
+            pcplgs[self.system.ports_pre_get(self.terminal_N.i)] = -1
+            pcplgs[self.system.ports_post_get(self.terminal_N.o)] = -1
         for port, pcplg in pcplgs.items():
             for kfrom in matrix_algorithm.port_set_get(port):
                 matrix_algorithm.port_coupling_insert(
@@ -102,8 +102,8 @@ class CurrentReadout(readouts.DCReadout, elements.ElectricalElementBase):
         #TODO, not sure about the 1/2 everywhere
         _2 = self.symbols.number(2)
         pcplgs = {
-            self.terminal.i :  1 / self.Ze_termination,
-            self.terminal.o : -1 / self.Ze_termination,
+            self.system.ports_pre_get(self.terminal.i)  :  1 / self.Ze_termination,
+            self.system.ports_post_get(self.terminal.o) : -1 / self.Ze_termination,
         }
         direction_cplg = {'in' : 1, 'out' : -1}[self.direction]
         for port, pcplg in pcplgs.items():
diff --git a/phasor/mechanical/multimeter.py b/phasor/mechanical/multimeter.py
index 9d6f8f2..6d70b82 100644
--- a/phasor/mechanical/multimeter.py
+++ b/phasor/mechanical/multimeter.py
@@ -54,8 +54,8 @@ class DisplacementReadout(readouts.DCReadout, elements.MechanicalElementBase):
             self.system.ports_post_get(self.terminal.o) : 1,
         }
         if self.terminal_N is not None:
-            pcplgs[self.terminal_N.i] = -1
-            pcplgs[self.terminal_N.o] = -1
+            pcplgs[self.system.ports_pre_get(self.terminal_N.i)] = -1
+            pcplgs[self.system.ports_post_get(self.terminal_N.o)] = -1
         for port, pcplg in pcplgs.items():
             for kfrom in matrix_algorithm.port_set_get(port):
                 matrix_algorithm.port_coupling_insert(
@@ -102,8 +102,8 @@ class ForceReadout(readouts.DCReadout, elements.MechanicalElementBase):
     def system_setup_coupling(self, matrix_algorithm):
         #TODO, not sure about the 1/2 everywhere
         pcplgs = {
-            self.terminal.i :  1 / self.Zm_termination,
-            self.terminal.o : -1 / self.Zm_termination,
+            self.system.ports_pre_get(self.terminal.i)  :  1 / self.Zm_termination,
+            self.system.ports_post_get(self.terminal.o) : -1 / self.Zm_termination,
         }
         direction_cplg = {'in' : 1, 'out' : -1}[self.direction]
         for port, pcplg in pcplgs.items():
-- 
2.43.0


From 3061cd596cfb69c7f8954c90d751e7ac7baf67df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:55 +0000
Subject: [PATCH 38/79] fix: rotated homodyne readouts failed when some of
 their noise terms do not depend on frequency

---
 phasor/readouts/homodyne_AC.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/phasor/readouts/homodyne_AC.py b/phasor/readouts/homodyne_AC.py
index e08b0f5..bf39fbb 100644
--- a/phasor/readouts/homodyne_AC.py
+++ b/phasor/readouts/homodyne_AC.py
@@ -90,13 +90,12 @@ class HomodyneACReadoutBase(base.SystemElementBase):
             IQ = subCSD['ps_In', 'Q']
             QI = subCSD['Q', 'ps_In']
             QQ = subCSD['Q', 'Q']
+            II, IQ, QI, QQ = np.broadcast_arrays(II, IQ, QI, QQ)
             arr = np_roll_2D_mat_back(
                 np.array(
                     [[II, IQ], [QI, QQ]]
                 )
             )
-            print(arr)
-            print(arr.dtype)
             arr = np.einsum('...ij,...jk->...ik', self.rotation_matrix_back, arr)
             #this builds the transpose into the sum
             arr = np.einsum('...ij,...kj->...ik', arr, self.rotation_matrix_back)
@@ -121,6 +120,8 @@ class HomodyneACReadoutBase(base.SystemElementBase):
         IQ = self.noise.CSD['ps_In', 'Q']
         QI = self.noise.CSD['Q', 'ps_In']
         QQ = self.noise.CSD['Q', 'Q']
+        #terms which do not depend on frequency are scalars
+        II, IQ, QI, QQ = np.broadcast_arrays(II, IQ, QI, QQ)
         arr = np_roll_2D_mat_back(
             np.array(
                 [[II, IQ], [QI, QQ]]
-- 
2.43.0


From 64944f1bfe898e76376f336012e094cda4c89d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 39/79] fix: pushpop of the thread safe priority queue called a
 function heapq does not have

---
 phasor/utilities/priority_queue/heap_priority_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/utilities/priority_queue/heap_priority_queue.py b/phasor/utilities/priority_queue/heap_priority_queue.py
index b04d654..077fd1e 100644
--- a/phasor/utilities/priority_queue/heap_priority_queue.py
+++ b/phasor/utilities/priority_queue/heap_priority_queue.py
@@ -178,6 +178,6 @@ class HeapPriorityQueueThreadsafe(object):
         add item into the Queue then return the smallest
         """
         with self.lock:
-            return heapq.pushpop(self.heap, item)
+            return heapq.heappushpop(self.heap, item)
 
 
-- 
2.43.0


From 8042a424d9711e464dd42cf404d5fef04d31ed0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:03 +0000
Subject: [PATCH 40/79] fix: peek of the thread safe priority queue could see a
 heap in the middle of another operation

---
 phasor/utilities/priority_queue/heap_priority_queue.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/phasor/utilities/priority_queue/heap_priority_queue.py b/phasor/utilities/priority_queue/heap_priority_queue.py
index 077fd1e..5edd878 100644
--- a/phasor/utilities/priority_queue/heap_priority_queue.py
+++ b/phasor/utilities/priority_queue/heap_priority_queue.py
@@ -134,10 +134,11 @@ class HeapPriorityQueueThreadsafe(object):
 
         :raises: :exc:`Queue.Empty` if no items contained
         """
-        try:
-            return self.heap[0]
-        except IndexError:
-            raise Empty()
+        with self.lock:
+            try:
+                return self.heap[0]
+            except IndexError:
+                raise Empty()
 
     def is_empty(self):
         """
-- 
2.43.0


From 16092eb5551c1321fbe35f38b4dac381b31c37da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:16 +0000
Subject: [PATCH 41/79] fix: inverse trigonometric functions were not found for
 floats and arrays

---
 phasor/math/dispatch_defaults.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/phasor/math/dispatch_defaults.py b/phasor/math/dispatch_defaults.py
index a77d8ab..7b1f97b 100644
--- a/phasor/math/dispatch_defaults.py
+++ b/phasor/math/dispatch_defaults.py
@@ -3,6 +3,15 @@
 """
 
 from __future__ import division, print_function, unicode_literals
+#numpy does not provide these under the names of the math and cmath modules
+from numpy import (
+    arccos as acos,
+    arccosh as acosh,
+    arcsin as asin,
+    arcsinh as asinh,
+    arctan as atan,
+    arctanh as atanh,
+)
 
 def re(obj):
     return obj.real
-- 
2.43.0


From 4c86bebc6b3d0bec6f39a466ec9aca9dd7ad8b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:16 +0000
Subject: [PATCH 42/79] fix: comparing a Complex with an object which has no
 real part raised instead of comparing

---
 phasor/math/complex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/math/complex.py b/phasor/math/complex.py
index 8f79300..75cfbe0 100644
--- a/phasor/math/complex.py
+++ b/phasor/math/complex.py
@@ -188,8 +188,8 @@ class Complex(ReprMixin):
             o_real = other
             o_imag = 0
         return (
-            (self.real == other.real) and
-            (self.imag == other.imag)
+            (self.real == o_real) and
+            (self.imag == o_imag)
         )
 
     def __ne__(self, other):
@@ -200,8 +200,8 @@ class Complex(ReprMixin):
             o_real = other
             o_imag = 0
         return (
-            (self.real != other.real) or
-            (self.imag != other.imag)
+            (self.real != o_real) or
+            (self.imag != o_imag)
         )
 
     def __pow__(self, other):
-- 
2.43.0


From 35ff7cef16eb745cc27e6775fdebf4c842d218ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:16 +0000
Subject: [PATCH 43/79] fix: powers of Complex were wrong or failed for most
 exponents

---
 phasor/math/complex.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/phasor/math/complex.py b/phasor/math/complex.py
index 75cfbe0..2f8afff 100644
--- a/phasor/math/complex.py
+++ b/phasor/math/complex.py
@@ -216,11 +216,16 @@ class Complex(ReprMixin):
             val = self
             if isinstance(o_real, int) or (isinstance(o_real, float) and (int(o_real) == o_real)):
                 o_real = int(o_real)
+                if o_real < 0:
+                    return 1 / self**(-o_real)
+                if o_real == 0:
+                    return self.__class__(self.real * 0 + 1, self.imag * 0)
                 while o_real % 2 == 0:
-                    o_real = (o_real / 2)
+                    o_real = o_real // 2
                     val = val * val
+                base = val
                 for _ in range(o_real - 1):
-                    val = val * self
+                    val = val * base
                 return val
             if isinstance(o_real, float) and o_real == .5:
                 aval = abs(self)
@@ -252,8 +257,8 @@ class Complex(ReprMixin):
 
         aval = aval ** o_real
         phase = phase * o_real
-        if o_imag is None:
-            return Complex(aval * cos(phase), -aval * sin(phase))
+        if o_imag is None or o_imag == 0:
+            return Complex(aval * cos(phase), aval * sin(phase))
         return NotImplemented
 
     def __rpow__(self, other):
-- 
2.43.0


From d98216916b7d8d6a46b44baf1b32cb48cb0edd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:16 +0000
Subject: [PATCH 44/79] fix: the fallback of the dispatched conjugate did not
 conjugate

---
 phasor/math/dispatch_defaults.py | 2 +-
 phasor/math/dispatched.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/math/dispatch_defaults.py b/phasor/math/dispatch_defaults.py
index 7b1f97b..d575431 100644
--- a/phasor/math/dispatch_defaults.py
+++ b/phasor/math/dispatch_defaults.py
@@ -28,7 +28,7 @@ def conjugate(obj):
     try:
         r = re(obj)
         i = im(obj)
-        return obj.__class__(r, i)
+        return obj.__class__(r, -i)
     except AttributeError:
         pass
 
diff --git a/phasor/math/dispatched.py b/phasor/math/dispatched.py
index a3691fc..25409ea 100644
--- a/phasor/math/dispatched.py
+++ b/phasor/math/dispatched.py
@@ -80,7 +80,7 @@ def conjugate(obj):
     try:
         r = re(obj)
         i = im(obj)
-        return obj.__class__(r, i)
+        return obj.__class__(r, -i)
     except AttributeError:
         pass
 
-- 
2.43.0


From 4fff0afb3e756ce888a8463fcd2ffa878d489d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:20 +0000
Subject: [PATCH 45/79] fix: index_map of a key matrix subscripted a method

---
 phasor/math/key_matrix/keymatrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/math/key_matrix/keymatrix.py b/phasor/math/key_matrix/keymatrix.py
index ccdfabd..cb02ec7 100644
--- a/phasor/math/key_matrix/keymatrix.py
+++ b/phasor/math/key_matrix/keymatrix.py
@@ -395,8 +395,8 @@ class KeyMatrix(KeyMatrixBase):
         return self.mat.T
 
     def index_map(self, key_from, key_to):
-        idx_from = self.vspace_from.key_map[key_from]
-        idx_to = self.vspace_to.key_map[key_to]
+        idx_from = self.vspace_from.key_map(key_from)
+        idx_to = self.vspace_to.key_map(key_to)
         return idx_from, idx_to
 
     def backmap_array(self, array):
-- 
2.43.0


From 5c827d60d9a55a99a6843941f35e9568063b6d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:20 +0000
Subject: [PATCH 46/79] fix: the sum of key matrices lost the terms of the left
 one

---
 phasor/math/key_matrix/keymatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/math/key_matrix/keymatrix.py b/phasor/math/key_matrix/keymatrix.py
index cb02ec7..68c3d01 100644
--- a/phasor/math/key_matrix/keymatrix.py
+++ b/phasor/math/key_matrix/keymatrix.py
@@ -463,7 +463,7 @@ class KeyMatrix(KeyMatrixBase):
                 v = premap[key_pair]
                 premap[key_pair] = v + value
             except KeyError:
-                premap = value
+                premap[key_pair] = value
         return KeyMatrix(self.vspace_from, self.vspace_to, _premap = premap)
 
     def __sub__(self, other):
-- 
2.43.0


From 751e8927524d295d05b0261f37e61f196d24a606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:20 +0000
Subject: [PATCH 47/79] fix: idx_dict of a key matrix did not follow later
 changes of the matrix

---
 phasor/math/key_matrix/keymatrix.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/phasor/math/key_matrix/keymatrix.py b/phasor/math/key_matrix/keymatrix.py
index 68c3d01..33f3fb2 100644
--- a/phasor/math/key_matrix/keymatrix.py
+++ b/phasor/math/key_matrix/keymatrix.py
@@ -2,8 +2,6 @@
 """
 """
 from __future__ import division, print_function, unicode_literals
-import declarative
-
 import warnings
 import numpy as np
 
@@ -355,7 +353,7 @@ class KeyMatrix(KeyMatrixBase):
         self._memoize_count += 1
         self.kw_params.update(kwargs)
 
-    @declarative.mproperty
+    @property
     def idx_dict(self):
         newmap = dict()
         for (k1, k2), edge in self._data_map.items():
-- 
2.43.0


From 3acf85c2072d0cfd46762d5aec39ebbf74c40596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:20 +0000
Subject: [PATCH 48/79] fix: copies of contravariant key spaces were not
 contravariant

---
 phasor/math/key_matrix/keymatrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phasor/math/key_matrix/keymatrix.py b/phasor/math/key_matrix/keymatrix.py
index 33f3fb2..ee2b813 100644
--- a/phasor/math/key_matrix/keymatrix.py
+++ b/phasor/math/key_matrix/keymatrix.py
@@ -38,6 +38,7 @@ class KVSpace(object):
             name = self.name,
             keys = self._key_set,
             dtype = self.dtype,
+            contravariant = self.contravariant,
         )
 
     def inverse(self):
-- 
2.43.0


From f96319c7d9c9f131b61c09fdd1790b1e6a6be423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:20 +0000
Subject: [PATCH 49/79] fix: add_by and multiply_by changed the array stored
 before in place

---
 phasor/math/key_matrix/keymatrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/math/key_matrix/keymatrix.py b/phasor/math/key_matrix/keymatrix.py
index ee2b813..e119cc6 100644
--- a/phasor/math/key_matrix/keymatrix.py
+++ b/phasor/math/key_matrix/keymatrix.py
@@ -191,7 +191,7 @@ class KeyVectorBase(KeyLinearBase):
         self._memoize_count += 1
         self.vspace.keys_add(key)
         try:
-            self._data_map[key] += value
+            self._data_map[key] = self._data_map[key] + value
         except KeyError:
             self._data_map[key] = value
         if len(np.asanyarray(value).shape) > 0:
@@ -249,7 +249,7 @@ class KeyMatrixBase(KeyLinearBase):
         self.vspace_to.keys_add(key_to)
         key_pair = key_from, key_to
         try:
-            self._data_map[key_pair] *= value
+            self._data_map[key_pair] = self._data_map[key_pair] * value
         except KeyError:
             self._data_map[key_pair] = value
         if len(np.asanyarray(value).shape) > 0:
-- 
2.43.0


From 943d003797ef77a0f503dd101944792afe651d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:20 +0000
Subject: [PATCH 50/79] fix: arrays filled from a nested map were not accounted
 in the shape of a key matrix

---
 phasor/math/key_matrix/keymatrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phasor/math/key_matrix/keymatrix.py b/phasor/math/key_matrix/keymatrix.py
index e119cc6..65c0616 100644
--- a/phasor/math/key_matrix/keymatrix.py
+++ b/phasor/math/key_matrix/keymatrix.py
@@ -290,6 +290,8 @@ class KeyMatrixBase(KeyLinearBase):
             for key_to, value in list(to_nested_map.items()):
                 self.vspace_to.keys_add(key_to)
                 self._data_map[key_from, key_to] = value
+                if len(np.asanyarray(value).shape) > 0:
+                    self._must_test_shape = True
 
 
 class KeyVector(KeyVectorBase):
-- 
2.43.0


From f30302767e0265abba68cbb2d7726a11483337d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:20 +0000
Subject: [PATCH 51/79] fix: arrays mapped back to key matrices were read
 transposed

---
 phasor/math/key_matrix/keymatrix.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/phasor/math/key_matrix/keymatrix.py b/phasor/math/key_matrix/keymatrix.py
index 65c0616..fafd603 100644
--- a/phasor/math/key_matrix/keymatrix.py
+++ b/phasor/math/key_matrix/keymatrix.py
@@ -409,16 +409,16 @@ class KeyMatrix(KeyMatrixBase):
             array_2d = np.any(array, axis = 0)
             while len(array_2d.shape) > 2:
                 array_2d = np.any(array_2d, axis = 0)
-            nz_idx_from, nz_idx_to = array_2d.nonzero()
+            nz_idx_to, nz_idx_from = array_2d.nonzero()
         else:
-            nz_idx_from, nz_idx_to = array.nonzero()
+            nz_idx_to, nz_idx_from = array.nonzero()
         matrix_map = {}
         for idx_count in range(len(nz_idx_from)):
             idx_from = nz_idx_from[idx_count]
             idx_to = nz_idx_to[idx_count]
             key_from = vspace_from.idx_map(idx_from)
             key_to = vspace_to.idx_map(idx_to)
-            value = array[..., idx_from, idx_to]
+            value = array[..., idx_to, idx_from]
             matrix_map[key_from, key_to] = value
         new_keymat = self.__class__(
             vspace_from = vspace_from,
@@ -432,17 +432,17 @@ class KeyMatrix(KeyMatrixBase):
         vspace_to   = self.vspace_from
         array = np.asarray(array)
         if len(array.shape) == 3:
-            array_2d = np.any(array, axis = 2)
-            nz_idx_from, nz_idx_to = array_2d.nonzero()
+            array_2d = np.any(array, axis = 0)
+            nz_idx_to, nz_idx_from = array_2d.nonzero()
         else:
-            nz_idx_from, nz_idx_to = array.nonzero()
+            nz_idx_to, nz_idx_from = array.nonzero()
         matrix_map = {}
         for idx_count in range(len(nz_idx_from)):
             idx_from = nz_idx_from[idx_count]
             idx_to = nz_idx_to[idx_count]
             key_from = vspace_from.idx_map(idx_from)
             key_to = vspace_to.idx_map(idx_to)
-            value = array[..., idx_from, idx_to]
+            value = array[..., idx_to, idx_from]
             matrix_map[key_from, key_to] = value
         new_keymat = self.__class__(
             vspace_from = vspace_from,
-- 
2.43.0


From 3a7999d873510e0b448b6146baef9ed1954ee22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:34 +0000
Subject: [PATCH 52/79] fix: arrays of keyed vectors and matrices failed for
 most mixtures of value shapes

---
 phasor/math/key_matrix/keymatrix.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/phasor/math/key_matrix/keymatrix.py b/phasor/math/key_matrix/keymatrix.py
index fafd603..ce17805 100644
--- a/phasor/math/key_matrix/keymatrix.py
+++ b/phasor/math/key_matrix/keymatrix.py
@@ -130,24 +130,19 @@ class KeyLinearBase(object):
         self._memoize_count = float('NaN')
 
     def _maxshape(self):
-        maxshape = np.array([])
+        maxshape = ()
         if self.dtype == object:
-            return tuple(maxshape)
+            return maxshape
         if self._must_test_shape:
             for key_pair, value in list(self._data_map.items()):
-                shape = np.array(np.asanyarray(value).shape)
-                if len(shape) > len(maxshape):
-                    maxshape, shape = shape, maxshape
-                expand_idx = (shape == 1)
-                shape[expand_idx] = maxshape[expand_idx]
-                maxshape_reduced = maxshape[:len(shape)]
-                expand_idx = (maxshape_reduced == 1)
-                maxshape[expand_idx] = shape[expand_idx]
-                if any(shape != maxshape_reduced):
+                shape = np.asanyarray(value).shape
+                try:
+                    maxshape = np.broadcast(np.empty(maxshape), np.empty(shape)).shape
+                except ValueError:
                     raise RuntimeError("Matrix contains unbroadcastable shapes! {0} !=> {1}".format(shape, maxshape))
-                if len(maxshape) == 0:
-                    self._must_test_shape = False
-        return tuple(maxshape)
+            if len(maxshape) == 0:
+                self._must_test_shape = False
+        return maxshape
 
 
 class KeyVectorBase(KeyLinearBase):
-- 
2.43.0


From dde446102ecec830bb6ac84d79381954db98a09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:39 +0000
Subject: [PATCH 53/79] fix: frequency keys with entries at zero differed from
 the same key without them

---
 phasor/base/dictionary_keys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phasor/base/dictionary_keys.py b/phasor/base/dictionary_keys.py
index c173af6..240f43b 100644
--- a/phasor/base/dictionary_keys.py
+++ b/phasor/base/dictionary_keys.py
@@ -146,7 +146,8 @@ class DictKey(MappingABC):
 class FrequencyKey(object):
     __slots__ = ('F_dict', 'prev_hash', 'prev_tup')
     def __init__(self, F_dict):
-        self.F_dict = F_dict
+        #entries at zero are the same key as no entry at all
+        self.F_dict = dict((F, n) for F, n in F_dict.items() if n != 0)
 
     def DC_is(self):
         return not self.F_dict
-- 
2.43.0


From 747d3848c39cc9b54adab96cd8796a9b22ee82d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:45 +0000
Subject: [PATCH 54/79] fix: unitful parameters could not be divided in python
 3

---
 phasor/base/simple_units.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phasor/base/simple_units.py b/phasor/base/simple_units.py
index c323e22..58a20e7 100644
--- a/phasor/base/simple_units.py
+++ b/phasor/base/simple_units.py
@@ -89,6 +89,8 @@ class SimpleUnitfulGroup(declarative.OverridableObject):
             units = self.units,
         )
 
+    __truediv__ = __div__
+
 
 class ElementRefValue(SimpleUnitfulGroup, Element):
     ##Inherited from SimpleUnitfulGroup
-- 
2.43.0


From d6145a52d5a84596578b737c48a3c8fc13fcee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:45 +0000
Subject: [PATCH 55/79] fix: parameters given as pint quantities were refused

---
 phasor/base/multi_unit_args.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/phasor/base/multi_unit_args.py b/phasor/base/multi_unit_args.py
index 207f4aa..ff7d4a4 100644
--- a/phasor/base/multi_unit_args.py
+++ b/phasor/base/multi_unit_args.py
@@ -77,8 +77,6 @@ def generate_refval_attribute(
                         ooa.setdefault("units", pint.mag1_units(v.units))
                     elif isinstance(v, pint.ureg.Quantity):
                         ooa.setdefault("val",   v.magnitude)
-                        if v.val is not v.ref:
-                            ooa.setdefault("ref",   v.ref)
                         ooa.setdefault("units", pint.mag1_units(v.units))
                     elif isinstance(v, pint.ureg.Unit):
                         ooa.setdefault("units", pint.mag1_units(v))
-- 
2.43.0


From e3cb0b48f74b078f98c63fe6a591af1f0025135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:30 +0000
Subject: [PATCH 56/79] fix: phase parameters could not be read by their own
 name

---
 phasor/optics/standard_attrs.py  | 1 +
 phasor/signals/standard_attrs.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/phasor/optics/standard_attrs.py b/phasor/optics/standard_attrs.py
index 8a46660..559f4d8 100644
--- a/phasor/optics/standard_attrs.py
+++ b/phasor/optics/standard_attrs.py
@@ -62,6 +62,7 @@ def generate_length():
 def generate_rotate(name = 'rotate', default = True):
     @decl.group_dproperty
     def rotate(desc):
+        desc.name_change(name)
         return generate_refval_attribute(
             desc,
             ubunch = units.rotation_deg,
diff --git a/phasor/signals/standard_attrs.py b/phasor/signals/standard_attrs.py
index ddc0d57..2855725 100644
--- a/phasor/signals/standard_attrs.py
+++ b/phasor/signals/standard_attrs.py
@@ -51,6 +51,7 @@ def generate_length(name = 'length'):
 def generate_rotate(name = 'rotate', default = True):
     @decl.group_dproperty
     def rotate(desc):
+        desc.name_change(name)
         return generate_refval_attribute(
             desc,
             ubunch = units.rotation_deg,
-- 
2.43.0


From 909501540e8f26d750ac7ddc39337c783088aafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:13 +0000
Subject: [PATCH 57/79] fix: strongly connected components were wrong or failed
 for most graphs with cycles

---
 .../key_matrix/keymatrix_reduce_tarjan.py     | 51 ++++++-------------
 1 file changed, 16 insertions(+), 35 deletions(-)

diff --git a/phasor/math/key_matrix/keymatrix_reduce_tarjan.py b/phasor/math/key_matrix/keymatrix_reduce_tarjan.py
index 360b65b..8dbbb66 100644
--- a/phasor/math/key_matrix/keymatrix_reduce_tarjan.py
+++ b/phasor/math/key_matrix/keymatrix_reduce_tarjan.py
@@ -45,7 +45,10 @@ def topological_sort(nodes, successor_func, single = False):
     index_counter = [1]
     lowlinks = {}
     index = {}
+    #nodes which are not yet extracted into an SCC
     stack = []
+    #nodes which are being iterated, each a successor of the last
+    path = []
     iter_stack = []
 
     def strongconnect(node):
@@ -54,6 +57,7 @@ def topological_sort(nodes, successor_func, single = False):
 
         def insert_node(node):
             stack.append(node)
+            path.append(node)
             iter_stack.append(iter(successor_func(node)))
             # set the depth index for this node to the smallest unused index
             index[node] = index_counter[0]
@@ -64,8 +68,8 @@ def topological_sort(nodes, successor_func, single = False):
         #insert the initial node
         insert_node(node)
 
-        while True:
-            node = stack[-1]
+        while path:
+            node = path[-1]
             for successor in iter_stack[-1]:
                 successor_ll = lowlinks.get(successor, None)
                 if successor_ll is None:
@@ -78,52 +82,29 @@ def topological_sort(nodes, successor_func, single = False):
             #this else is against the for loop, it triggers when the iterator runs out of elements
             #and break is NOT called
             else:
-                child_node = node
-                node = stack.pop()
+                path.pop()
                 iter_stack.pop()
                 #both of these lowlinks must be positive because they are on the stack
-                lowlinks[node] = min(lowlinks[child_node],lowlinks[node])
-
-                #here is the only place that the stack could be empty
-                if not stack:
-                    assert(lowlinks[node] > 0)
-                    lowlinks[node] *= -1
-                    if single:
-                        yield node
-                    else:
-                        yield (node,)
-                    break
+                if path:
+                    lowlinks[path[-1]] = min(lowlinks[path[-1]], lowlinks[node])
 
                 # If `node` is a root node, pop the stack and generate an SCC
-                if lowlinks[node] < index[node]:
-                    assert(lowlinks[node] > 0)
-                    lowlinks[node] *= -1
-                    component = [node]
-                    while stack:
+                if lowlinks[node] == index[node]:
+                    component = []
+                    while True:
                         ND = stack.pop()
                         component.append(ND)
                         assert(lowlinks[ND] > 0)
                         lowlinks[ND] *= -1
-                        if -lowlinks[ND] == index[ND]:
+                        if ND is node:
                             break
-                    else:
-                        #didn't hit break, so the stack is empty
-                        component = tuple(component)
-                        yield component
-                        return
                     component = tuple(component)
-                    if single:
+                    if not single:
+                        yield component
+                    elif len(component) > 1:
                         raise SCCError(component)
                     else:
-                        yield component
-
-                elif lowlinks[node] == index[node]:
-                    assert(lowlinks[node] > 0)
-                    lowlinks[node] *= -1
-                    if single:
                         yield node
-                    else:
-                        yield (node,)
 
     for node in nodes:
         for component in strongconnect(node):
-- 
2.43.0


From 3d94965096180cc282821781534f829da13ca166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:13 +0000
Subject: [PATCH 58/79] fix: stacked linear solutions of different dimensions
 were not aligned like broadcasting does

---
 phasor/matrix/linalg.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/phasor/matrix/linalg.py b/phasor/matrix/linalg.py
index 3a6788b..3f67558 100644
--- a/phasor/matrix/linalg.py
+++ b/phasor/matrix/linalg.py
@@ -50,8 +50,11 @@ def linalg_solve_bcast(M, V):
         rvec = np.empty(b.shape + M.shape[-1:], dtype = rtype)
         idx = 0
         for idx in stackrange(b.shape):
-            idxM = tuple((0 if iM == 1 else iB) for iM, iB in zip(M.shape[:-2], idx))
-            idxV = tuple((0 if iV == 1 else iB) for iV, iB in zip(V.shape[:-1], idx))
+            #the dimensions are aligned from the last
+            shapeM = M.shape[:-2]
+            shapeV = V.shape[:-1]
+            idxM = tuple((0 if iM == 1 else iB) for iM, iB in zip(shapeM, idx[len(idx) - len(shapeM):]))
+            idxV = tuple((0 if iV == 1 else iB) for iV, iB in zip(shapeV, idx[len(idx) - len(shapeV):]))
             Mred = M[idxM + (slice(None), slice(None))]
             Vred = V[idxV + (slice(None),)]
             Vsol = np.linalg.solve(Mred, Vred)
-- 
2.43.0


From b07a2bd7a26aa35f250f34e63c6f0fad49ffae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:13 +0000
Subject: [PATCH 59/79] fix: excursions of a beam could not be computed for a
 given beam source

---
 phasor/alm/measurements.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/phasor/alm/measurements.py b/phasor/alm/measurements.py
index 15d7d77..31c6623 100644
--- a/phasor/alm/measurements.py
+++ b/phasor/alm/measurements.py
@@ -522,9 +522,10 @@ class Measurements(Element):
         """
         headers = ['target', 'max', 'sv1', 'sv2']
         if beam_source is None:
-            beam_target = self.target_idx(self.beam_targets.tname[-1])
-            target_obj = self.layout.target_obj(beam_target)
-            q_in = target_obj.beam_q
+            beam_source = self.beam_targets.tname[-1]
+        beam_target = self.target_idx(beam_source)
+        target_obj = self.layout.target_obj(beam_target)
+        q_in = target_obj.beam_q
         #tmat_sense = q_in.sensitivity_matrix
         bigmat = []
         for target in targets:
@@ -596,9 +597,10 @@ class Measurements(Element):
         """
         headers = ['target', 'max', 'sv1', 'sv2']
         if beam_source is None:
-            beam_target = self.target_idx(self.beam_targets.tname[-1])
-            target_obj = self.layout.target_obj(beam_target)
-            q_in = target_obj.beam_q
+            beam_source = self.beam_targets.tname[-1]
+        beam_target = self.target_idx(beam_source)
+        target_obj = self.layout.target_obj(beam_target)
+        q_in = target_obj.beam_q
         #tmat_sense = q_in.sensitivity_matrix
         bigmat = []
         for target in targets:
-- 
2.43.0


From f4c07335ecadaee688dd203022527a140e7473b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:57 +0000
Subject: [PATCH 60/79] fix: beam parameters could not be converted to complex
 numbers, which beam profiles need

---
 phasor/alm/beam_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/alm/beam_param.py b/phasor/alm/beam_param.py
index 977280c..1a13158 100644
--- a/phasor/alm/beam_param.py
+++ b/phasor/alm/beam_param.py
@@ -200,7 +200,7 @@ class ComplexBeamParam(object):
         )
 
     def __complex__(self):
-        return self.value
+        return complex(self.value.real, self.value.imag)
 
     def overlap_with(self, other):
         return (
-- 
2.43.0


From 34dc6c12904ebcfea7196a152d64301d97fd6071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:56 +0000
Subject: [PATCH 61/79] fix: the phase of backscatter is opposite for opposite
 beams, so that the mirror conserves energy

---
 phasor/optics/mirror.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/phasor/optics/mirror.py b/phasor/optics/mirror.py
index 83a655e..a4e0d69 100644
--- a/phasor/optics/mirror.py
+++ b/phasor/optics/mirror.py
@@ -361,6 +361,12 @@ class Mirror(
             self.po_BkA: (self.po_BkA   , -rBS),
             self.po_BkB: (self.po_BkB   , rBS),
         }
+        BS_phase_sign_map = {
+            self.po_FrA: 1,
+            self.po_FrB: -1,
+            self.po_BkA: -1,
+            self.po_BkB: 1,
+        }
         lmap = {
             self._LFrA: (self.po_FrA   , l),
             self._LBkA: (self.po_BkA   , l),
@@ -455,8 +461,10 @@ class Mirror(
                     R_cplgC  = R_cplg
 
                     if np.any(self.backscatter_phase_rad.val != 0):
-                        R_cplg   = R_cplg * self.symbols.math.exp(self.symbols.i * self.backscatter_phase_rad.val)
-                        R_cplgC  = R_cplgC * self.symbols.math.exp(-self.symbols.i * self.backscatter_phase_rad.val)
+                        #opposite where the sign is, otherwise the mirror would not conserve energy
+                        BS_phase_rad = BS_phase_sign_map[port] * self.backscatter_phase_rad.val
+                        R_cplg   = R_cplg * self.symbols.math.exp(self.symbols.i * BS_phase_rad)
+                        R_cplgC  = R_cplgC * self.symbols.math.exp(-self.symbols.i * BS_phase_rad)
 
                     modulations_fill_2optical_2classical(
                         system             = self.system,
-- 
2.43.0


From 01fae5f8cbe761e2668d94422ac48b5ec6b454f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:53 +0000
Subject: [PATCH 62/79] fix: the output voltage of a VAmp with an output
 impedance was not divided between the impedance and the line

---
 phasor/electronics/opamps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phasor/electronics/opamps.py b/phasor/electronics/opamps.py
index b2fdec9..af78973 100644
--- a/phasor/electronics/opamps.py
+++ b/phasor/electronics/opamps.py
@@ -134,7 +134,8 @@ class VAmp(elements.ElectricalElementBase):
                 #if self.system.classical_frequency_test_max(kfrom, self.max_freq):
                 #    continue
                 freq = self.system.classical_frequency_extract(kfrom)
-                pgain = self.gain_by_freq(freq)
+                #the wave which leaves a source through its output impedance
+                pgain = self.gain_by_freq(freq) * self.Ze_termination / (self.Z_output + self.Ze_termination)
                 matrix_algorithm.port_coupling_insert(
                     port1.i,
                     kfrom,
-- 
2.43.0


From 22626c46dc8084c08350349bb0667d2f595a8b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:25 +0000
Subject: [PATCH 63/79] fix: an array of backscatter reflectivities raised an
 error

---
 phasor/optics/mirror.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/optics/mirror.py b/phasor/optics/mirror.py
index a4e0d69..dcfa212 100644
--- a/phasor/optics/mirror.py
+++ b/phasor/optics/mirror.py
@@ -282,7 +282,7 @@ class Mirror(
                     ports_algorithm.port_coupling_needed(lmap[port].o, kfrom)
                 if R_nonzero:
                     ports_algorithm.port_coupling_needed(rmap[port].o, kfrom)
-                if self.R_backscatter != 0:
+                if np.any(self.R_backscatter != 0):
                     ports_algorithm.port_coupling_needed(rBSmap[port].o, kfrom)
             for kto in ports_algorithm.port_update_get(port.o):
                 ports_algorithm.port_coupling_needed(port.i, kto)
@@ -292,7 +292,7 @@ class Mirror(
                     ports_algorithm.port_coupling_needed(lmap[port].i, kto)
                 if R_nonzero:
                     ports_algorithm.port_coupling_needed(rmap[port].i, kto)
-                if self.R_backscatter != 0:
+                if np.any(self.R_backscatter != 0):
                     ports_algorithm.port_coupling_needed(rBSmap[port].i, kto)
 
         if self._has_loss:
-- 
2.43.0


From 9b9c8edd9dcb111582ee7e538cb0349c23055f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:25 +0000
Subject: [PATCH 64/79] fix: an array of rotation angles of the polarization
 raised an error

---
 phasor/optics/polarization.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/phasor/optics/polarization.py b/phasor/optics/polarization.py
index 5584eee..de6ace0 100644
--- a/phasor/optics/polarization.py
+++ b/phasor/optics/polarization.py
@@ -2,6 +2,7 @@
 """
 """
 from __future__ import division, print_function, unicode_literals
+import numpy as np
 import declarative as decl
 
 from ..utilities.future_from_2 import super
@@ -29,6 +30,10 @@ class BaseRotator(
     _rotate_default = ('rotate_deg', 0)
     rotate = standard_attrs.generate_rotate()
 
+    def _rotate_in(self, *angles_deg):
+        #the angle may be an array, which is always treated as a general rotation
+        return np.ndim(self.rotate_deg.val) == 0 and self.rotate_deg.val in angles_deg
+
     @decl.mproperty
     def ports_optical(self):
         return [
@@ -44,13 +49,13 @@ class BaseRotator(
         }
 
     def system_setup_ports(self, ports_algorithm):
-        if self.rotate_deg.val in (0, 180, -180):
+        if self._rotate_in(0, 180, -180):
             for port in self.ports_optical:
                 for kfrom in ports_algorithm.port_update_get(port.i):
                     ports_algorithm.port_coupling_needed(self.pmap[port].o, kfrom)
                 for kto in ports_algorithm.port_update_get(port.o):
                     ports_algorithm.port_coupling_needed(self.pmap[port].i, kto)
-        elif self.rotate_deg.val in (90, -90, 270, -270):
+        elif self._rotate_in(90, -90, 270, -270):
             for port in self.ports_optical:
                 for kfrom in ports_algorithm.port_update_get(port.i):
                     if kfrom & ports.PolS:
@@ -73,7 +78,7 @@ class BaseRotator(
         return
 
     def system_setup_coupling(self, matrix_algorithm):
-        if self.rotate_deg.val in (0, 180, -180):
+        if self._rotate_in(0, 180, -180):
             if self.rotate_deg.val == 0:
                 cplg = 1
             elif self.rotate_deg.val in (180, -180):
@@ -81,7 +86,7 @@ class BaseRotator(
             for port in self.ports_optical:
                 for kfrom in matrix_algorithm.port_set_get(port.i):
                     matrix_algorithm.port_coupling_insert(port.i, kfrom, self.pmap[port].o, kfrom, cplg)
-        elif self.rotate_deg.val in (90, -90, 270, -270):
+        elif self._rotate_in(90, -90, 270, -270):
             if self.rotate_deg.val in (90, -270):
                 cplg_O = 1
             elif self.rotate_deg.val in (-90, 270):
@@ -154,7 +159,7 @@ class PolarizationRotator(
         BaseRotator
 ):
     def system_setup_coupling(self, matrix_algorithm):
-        if self.rotate_deg.val in (0, 180, -180):
+        if self._rotate_in(0, 180, -180):
             if self.rotate_deg.val == 0:
                 cplg = 1
             elif self.rotate_deg.val in (180, -180):
@@ -162,7 +167,7 @@ class PolarizationRotator(
             for port in self.ports_optical:
                 for kfrom in matrix_algorithm.port_set_get(port.i):
                     matrix_algorithm.port_coupling_insert(port.i, kfrom, self.pmap[port].o, kfrom, cplg)
-        elif self.rotate_deg.val in (90, -90, 270, -270):
+        elif self._rotate_in(90, -90, 270, -270):
             if self.rotate_deg.val in (90, -270):
                 cplg_O = 1
             elif self.rotate_deg.val in (-90, 270):
@@ -235,7 +240,7 @@ class FaradayRotator(
         BaseRotator
 ):
     def system_setup_coupling(self, matrix_algorithm):
-        if self.rotate_deg.val in (0, 180, -180):
+        if self._rotate_in(0, 180, -180):
             if self.rotate_deg.val == 0:
                 cplg = 1
             elif self.rotate_deg.val in (180, -180):
@@ -243,7 +248,7 @@ class FaradayRotator(
             for port in self.ports_optical:
                 for kfrom in matrix_algorithm.port_set_get(port.i):
                     matrix_algorithm.port_coupling_insert(port.i, kfrom, self.pmap[port].o, kfrom, cplg)
-        elif self.rotate_deg.val in (90, -90, 270, -270):
+        elif self._rotate_in(90, -90, 270, -270):
             if self.rotate_deg.val in (90, -270):
                 cplg = 1
             elif self.rotate_deg.val in (-90, 270):
-- 
2.43.0


From f3779e3e19914f2f0a62d14fdb8755c189b97d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:25 +0000
Subject: [PATCH 65/79] fix: arrays of static source values, cable losses and
 inductor resistances raised an error

---
 phasor/electronics/passive.py     |  2 +-
 phasor/electronics/sources.py     | 16 +++++++++-------
 phasor/mechanical/elements.py     |  4 +++-
 phasor/mechanical/ports_driven.py |  5 +++--
 phasor/mechanical/sources.py      | 16 +++++++++-------
 5 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/phasor/electronics/passive.py b/phasor/electronics/passive.py
index f6e5700..9182ec1 100644
--- a/phasor/electronics/passive.py
+++ b/phasor/electronics/passive.py
@@ -54,7 +54,7 @@ class InductorBase(object):
 
     @decl.dproperty
     def johnson_noise(self):
-        if self.system.include_johnson_noise and self.resistance_Ohms != 0:
+        if self.system.include_johnson_noise and np.any(self.resistance_Ohms != 0):
             return noise.VoltageFluctuation(
                 port = self.pe_A,
                 Vsq_Hz_by_freq = lambda F : 4 * self.resistance_Ohms * self.symbols.temp_K * self.symbols.kB_J_K,
diff --git a/phasor/electronics/sources.py b/phasor/electronics/sources.py
index f1fc6bc..e666dbe 100644
--- a/phasor/electronics/sources.py
+++ b/phasor/electronics/sources.py
@@ -3,6 +3,8 @@
 """
 from __future__ import division, print_function, unicode_literals
 
+import numpy as np
+
 import declarative as decl
 
 from ..utilities.future_from_2 import super
@@ -30,7 +32,7 @@ class VoltageSource(smatrix.SMatrix1PortBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.V_DC != 0:
+        if np.any(self.V_DC != 0):
             ports_algorithm.coherent_sources_needed(self.pe_A.o, self.fkey)
         return
 
@@ -46,7 +48,7 @@ class VoltageSource(smatrix.SMatrix1PortBase):
         #TODO setup DC
         super().system_setup_coupling(matrix_algorithm)
 
-        if self.V_DC != 0:
+        if np.any(self.V_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pe_A.o,
                 self.fkey,
@@ -84,7 +86,7 @@ class CurrentSource(smatrix.SMatrix1PortBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.I_DC != 0:
+        if np.any(self.I_DC != 0):
             ports_algorithm.coherent_sources_needed(self.pe_A.o, self.fkey)
         return
 
@@ -100,7 +102,7 @@ class CurrentSource(smatrix.SMatrix1PortBase):
         #TODO setup DC
         super().system_setup_coupling(matrix_algorithm)
 
-        if self.I_DC != 0:
+        if np.any(self.I_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pe_A.o,
                 self.fkey,
@@ -157,7 +159,7 @@ class VoltageSourceBalanced(smatrix.SMatrix2PortBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.I_DC != 0 or self.V_DC != 0:
+        if np.any(self.I_DC != 0) or np.any(self.V_DC != 0):
             ports_algorithm.coherent_sources_needed(self.pe_A.o, self.fkey)
             ports_algorithm.coherent_sources_needed(self.pe_B.o, self.fkey)
         return
@@ -181,7 +183,7 @@ class VoltageSourceBalanced(smatrix.SMatrix2PortBase):
         #TODO, not sure about the 1/2 everywhere
         _2 = self.symbols.number(2)
 
-        if self.V_DC != 0:
+        if np.any(self.V_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pe_A.o,
                 self.fkey,
@@ -194,7 +196,7 @@ class VoltageSourceBalanced(smatrix.SMatrix2PortBase):
                 -self.V_DC / _2,
             )
 
-        if self.I_DC != 0:
+        if np.any(self.I_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pe_A.o,
                 self.fkey,
diff --git a/phasor/mechanical/elements.py b/phasor/mechanical/elements.py
index cf7f87a..08ba70d 100644
--- a/phasor/mechanical/elements.py
+++ b/phasor/mechanical/elements.py
@@ -29,6 +29,8 @@ from ..base.bases import (
     CouplerBase,
 )
 
+import numpy as np
+
 import declarative as decl
 
 from . import ports
@@ -204,7 +206,7 @@ class Cable(Mechanical2PortBase):
         return
 
     def system_setup_coupling(self, matrix_algorithm):
-        if self.Loss != 0:
+        if np.any(self.Loss != 0):
             loss_coeff = (1 - self.Loss)**.5
         else:
             loss_coeff = 1
diff --git a/phasor/mechanical/ports_driven.py b/phasor/mechanical/ports_driven.py
index d94a847..8a75a2c 100644
--- a/phasor/mechanical/ports_driven.py
+++ b/phasor/mechanical/ports_driven.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 from __future__ import division, print_function, unicode_literals
 
+import numpy as np
 import declarative
 
 from ..utilities.future_from_2 import super
@@ -34,7 +35,7 @@ class ForceToDisplacementBase(elements.MechanicalElementBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.F_DC != 0:
+        if np.any(self.F_DC != 0):
             ports_algorithm.coherent_sources_needed(self._port.o, self.fkey)
         return
 
@@ -57,7 +58,7 @@ class ForceToDisplacementBase(elements.MechanicalElementBase):
         #TODO setup DC
         super().system_setup_coupling(matrix_algorithm)
 
-        if self.F_DC != 0:
+        if np.any(self.F_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self._port.o,
                 self.fkey,
diff --git a/phasor/mechanical/sources.py b/phasor/mechanical/sources.py
index e09d0e2..d70014e 100644
--- a/phasor/mechanical/sources.py
+++ b/phasor/mechanical/sources.py
@@ -3,6 +3,8 @@
 """
 from __future__ import division, print_function, unicode_literals
 
+import numpy as np
+
 import declarative
 
 from ..utilities.future_from_2 import str, super
@@ -30,7 +32,7 @@ class DisplacementSource(smatrix.SMatrix1PortBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.d_DC != 0:
+        if np.any(self.d_DC != 0):
             ports_algorithm.coherent_sources_needed(self.pm_A.o, self.fkey)
         return
 
@@ -46,7 +48,7 @@ class DisplacementSource(smatrix.SMatrix1PortBase):
         #TODO setup DC
         super().system_setup_coupling(matrix_algorithm)
 
-        if self.d_DC != 0:
+        if np.any(self.d_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pm_A.o,
                 self.fkey,
@@ -84,7 +86,7 @@ class ForceSource(smatrix.SMatrix1PortBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.F_DC != 0:
+        if np.any(self.F_DC != 0):
             ports_algorithm.coherent_sources_needed(self.pm_A.o, self.fkey)
         return
 
@@ -100,7 +102,7 @@ class ForceSource(smatrix.SMatrix1PortBase):
         #TODO setup DC
         super().system_setup_coupling(matrix_algorithm)
 
-        if self.F_DC != 0:
+        if np.any(self.F_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pm_A.o,
                 self.fkey,
@@ -157,7 +159,7 @@ class DisplacementSourceBalanced(smatrix.SMatrix2PortBase):
         })
 
     def system_setup_ports_initial(self, ports_algorithm):
-        if self.d_DC != 0 or self.F_DC != 0:
+        if np.any(self.d_DC != 0) or np.any(self.F_DC != 0):
             ports_algorithm.coherent_sources_needed(self.pm_A.o, self.fkey)
             ports_algorithm.coherent_sources_needed(self.pm_B.o, self.fkey)
         return
@@ -181,7 +183,7 @@ class DisplacementSourceBalanced(smatrix.SMatrix2PortBase):
         #TODO, not sure about the 1/2 everywhere
         _2 = self.symbols.number(2)
 
-        if self.d_DC != 0:
+        if np.any(self.d_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pm_A.o,
                 self.fkey,
@@ -194,7 +196,7 @@ class DisplacementSourceBalanced(smatrix.SMatrix2PortBase):
                 -self.d_DC / _2,
             )
 
-        if self.F_DC != 0:
+        if np.any(self.F_DC != 0):
             matrix_algorithm.coherent_sources_insert(
                 self.pm_A.o,
                 self.fkey,
-- 
2.43.0


From 7976880a77cf69b0f6a87c17fd66ab7689d6928d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 66/79] fix: an acousto optic modulator without drive, and
 light which its drive would shift out of the order of its frequency, was
 absorbed rather than transmitted

---
 phasor/optics/AOM.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/phasor/optics/AOM.py b/phasor/optics/AOM.py
index 9a363e0..255a663 100644
--- a/phasor/optics/AOM.py
+++ b/phasor/optics/AOM.py
@@ -257,18 +257,23 @@ class AOM(
                             dLt[(portO.i, kto)].append(
                                 (G, (port.i, kfrom), (self.Drv.i, kfrom2))
                             )
-                            in_map[(port.i, kto)] = (port.i, kto)
                             in_map[(port.i, kfrom)] = (port.i, kfrom)
                             in_map[(portO.i, kto)] = (portO.i, kto)
-                            in_map[(portO.i, kfrom)] = (portO.i, kfrom)
                             in_map[(self.Drv.i, kfrom2)] = (self.Drv.i, kfrom2)
-                            out_map[(port.i, kto)] = (omap[port].o, kto)
                             out_map[(port.i, kfrom)] = (omap[port].o, kfrom)
                             out_map[(portO.i, kto)] = (omap[portO].o, kto)
-                            out_map[(portO.i, kfrom)] = (omap[portO].o, kfrom)
                             out_map[(self.Drv.i, kfrom2)] = None
                             #print("JOIN: ", kfrom, kfrom2, kto)
 
+            #light which the drive does not couple to any other order is transmitted
+            for port in portset:
+                for kfrom in matrix_algorithm.port_set_get(port.i):
+                    if (port.i, kfrom) not in in_map:
+                        matrix_algorithm.port_coupling_insert(port.i, kfrom, omap[port].o, kfrom, 1)
+
+            if not dLt:
+                continue
+
             #pprint(dLt)
             matrix_algorithm.injection_insert(
                 ODE_solver.ExpMatCoupling(
-- 
2.43.0


From 10ec9cbbabef7f0d8bd84485f0641360203158de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 67/79] fix: the noise ellipse relative to shot noise raised an
 error

---
 phasor/readouts/homodyne_AC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/readouts/homodyne_AC.py b/phasor/readouts/homodyne_AC.py
index bf39fbb..131641d 100644
--- a/phasor/readouts/homodyne_AC.py
+++ b/phasor/readouts/homodyne_AC.py
@@ -205,7 +205,7 @@ class HomodyneACReadoutBase(base.SystemElementBase):
     def AC_CSD_ellipse_normSN(self):
         ellipse = self.AC_CSD_ellipse
         #TODO, get appropriate wavelength rather than assuming 1064nm
-        qmag = self.system.adjust_PSD * self.symbols.h_Js * self.symbols.c_m_s / 1064e-9  # * iwavelen_m
+        qmag = self.system.adjust_PSD * self.system.symbols.h_Js * self.system.symbols.c_m_s / 1064e-9  # * iwavelen_m
         return declarative.Bunch(
             min = ellipse.min / qmag,
             max = ellipse.max / qmag,
-- 
2.43.0


From 06f925d957db87a4bc57a270f2388db698598cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 68/79] fix: the optimal readout angle lost its sign, so that
 the optimal readout was not optimal

---
 phasor/readouts/homodyne_AC.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/phasor/readouts/homodyne_AC.py b/phasor/readouts/homodyne_AC.py
index 131641d..e5e7781 100644
--- a/phasor/readouts/homodyne_AC.py
+++ b/phasor/readouts/homodyne_AC.py
@@ -282,9 +282,17 @@ class HomodyneACReadoutBase(base.SystemElementBase):
 
     @declarative.mproperty
     def AC_optimal_readout_deg(self):
-        SIQ = np.einsum('ij...,j...->i...', self.AC_CSD_IQ_inv, self.AC_sensitivity_IQ)
-        ang_lin = np.arctan2(np.abs(SIQ[1]), np.abs(SIQ[0]))
-        return ang_lin * 180 / np.pi
+        #the angle maximizes signal over noise, so it is the eigenvector of noise^-1 * signal of the largest eigenvalue
+        M = np.einsum('ij...,jk...->ik...', self.AC_CSD_IQ_re_inv, np.real(self.AC_signal_matrix))
+        diff = (M[0, 0] - M[1, 1]) / 2
+        rtDisc = np.sqrt(np.maximum(diff**2 + M[0, 1] * M[1, 0], 0))
+        #of the two equal forms of the eigenvector use the one which does not cancel
+        ang = np.where(
+            diff >= 0,
+            np.arctan2(M[1, 0], diff + rtDisc),
+            np.arctan2(rtDisc - diff, M[0, 1]),
+        )
+        return ang * 180 / np.pi
 
     @declarative.mproperty
     def optimal_readout(self):
-- 
2.43.0


From 861b2e99cae899eb2e694d59e38dea59efa9f948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:14 +0000
Subject: [PATCH 69/79] fix: arrays of different shapes for several frequencies
 raised a ValueError

---
 phasor/base/dictionary_keys.py |  2 +-
 phasor/system/system.py        | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/phasor/base/dictionary_keys.py b/phasor/base/dictionary_keys.py
index 240f43b..24c462d 100644
--- a/phasor/base/dictionary_keys.py
+++ b/phasor/base/dictionary_keys.py
@@ -181,7 +181,7 @@ class FrequencyKey(object):
         for F, n in list(self.F_dict.items()):
             if n != 0:
                 #TODO maybe move the .val somewhere else
-                F_sum += F.F_Hz.val * n
+                F_sum = F_sum + F.F_Hz.val * n
         return F_sum
 
     def __repr__(self):
diff --git a/phasor/system/system.py b/phasor/system/system.py
index 85d4990..1711791 100644
--- a/phasor/system/system.py
+++ b/phasor/system/system.py
@@ -215,9 +215,9 @@ class BGSystem(RootElement):
         iwavelen_m = 0
         freq_Hz = 0
         for F, n in list(key[ClassicalFreqKey].F_dict.items()):
-            freq_Hz += n * F.F_Hz.val
+            freq_Hz = freq_Hz + n * F.F_Hz.val
         for F, n in list(key[OpticalFreqKey].F_dict.items()):
-            iwavelen_m += n * F.iwavelen_m
+            iwavelen_m = iwavelen_m + n * F.iwavelen_m
         return iwavelen_m, freq_Hz
 
     @declarative.mproperty
@@ -273,7 +273,7 @@ class BGSystem(RootElement):
         #TODO put this logic in a subobject
         freq_Hz = 0
         for F, n in list(key[ClassicalFreqKey].F_dict.items()):
-            freq_Hz += n * F.F_Hz.val
+            freq_Hz = freq_Hz + n * F.F_Hz.val
         return freq_Hz
 
     def classical_frequency_extract_center(self, ekey):
@@ -282,7 +282,7 @@ class BGSystem(RootElement):
         for F, n in list(ekey.F_dict.items()):
             if len(np.array(F.F_center_Hz).shape) > 0:
                 print("Weird F_center_Hz shape: ", F, n, F.F_center_Hz)
-            freq_Hz += n * F.F_center_Hz
+            freq_Hz = freq_Hz + n * F.F_center_Hz
         return freq_Hz
 
     def classical_frequency_test_max(self, key, max_freq):
@@ -291,7 +291,7 @@ class BGSystem(RootElement):
         #TODO put this logic in a subobject
         freq_Hz = 0
         for F, n in list(key[ClassicalFreqKey].F_dict.items()):
-            freq_Hz += n * F.F_Hz.val
+            freq_Hz = freq_Hz + n * F.F_Hz.val
         if np.any(freq_Hz < max_freq):
             return False
         return True
-- 
2.43.0


From 2e4e97c7fabd1dc82f7ac1e29ceefe4d3c94c397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:46 +0000
Subject: [PATCH 70/79] fix: the voltage or displacement between a terminal and
 itself was not zero

---
 phasor/electronics/multimeter.py | 8 ++++++--
 phasor/mechanical/multimeter.py  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/phasor/electronics/multimeter.py b/phasor/electronics/multimeter.py
index a3e46bd..af17f88 100644
--- a/phasor/electronics/multimeter.py
+++ b/phasor/electronics/multimeter.py
@@ -51,8 +51,12 @@ class VoltageReadout(readouts.DCReadout, elements.ElectricalElementBase):
             self.system.ports_post_get(self.terminal.o) : 1,
         }
         if self.terminal_N is not None:
-            pcplgs[self.system.ports_pre_get(self.terminal_N.i)] = -1
-            pcplgs[self.system.ports_post_get(self.terminal_N.o)] = -1
+            for port in (
+                    self.system.ports_pre_get(self.terminal_N.i),
+                    self.system.ports_post_get(self.terminal_N.o),
+            ):
+                #the two terminals may share their ports
+                pcplgs[port] = pcplgs.get(port, 0) - 1
         for port, pcplg in pcplgs.items():
             for kfrom in matrix_algorithm.port_set_get(port):
                 matrix_algorithm.port_coupling_insert(
diff --git a/phasor/mechanical/multimeter.py b/phasor/mechanical/multimeter.py
index 6d70b82..e1184f3 100644
--- a/phasor/mechanical/multimeter.py
+++ b/phasor/mechanical/multimeter.py
@@ -54,8 +54,12 @@ class DisplacementReadout(readouts.DCReadout, elements.MechanicalElementBase):
             self.system.ports_post_get(self.terminal.o) : 1,
         }
         if self.terminal_N is not None:
-            pcplgs[self.system.ports_pre_get(self.terminal_N.i)] = -1
-            pcplgs[self.system.ports_post_get(self.terminal_N.o)] = -1
+            for port in (
+                    self.system.ports_pre_get(self.terminal_N.i),
+                    self.system.ports_post_get(self.terminal_N.o),
+            ):
+                #the two terminals may share their ports
+                pcplgs[port] = pcplgs.get(port, 0) - 1
         for port, pcplg in pcplgs.items():
             for kfrom in matrix_algorithm.port_set_get(port):
                 matrix_algorithm.port_coupling_insert(
-- 
2.43.0


From 69ca2cc200210d417e5ab367b7c0de4ad19b3aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:39 +0000
Subject: [PATCH 71/79] fix: elements could not be added by own[name]

---
 phasor/base/autograft.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/phasor/base/autograft.py b/phasor/base/autograft.py
index 219aa75..6bbac3e 100644
--- a/phasor/base/autograft.py
+++ b/phasor/base/autograft.py
@@ -562,12 +562,7 @@ class SubElementBridge(object):
         self._parent = parent
 
     def __setitem__(self, name, item):
-        try:
-            item = self._dict.setdefault(name, item)
-            setattr(self._parent, name, item)
-            return item
-        except TypeError:
-            raise TypeError("Can't insert {0} into {1} at name {2}".format(item, self._dict, name))
+        return self._parent.insert(obj = item, name = name)
 
     def __setattr__(self, name, item):
         if not (isinstance(name, (str, unicode))):
-- 
2.43.0


From 04b5c2bf39ae3e0e3dc64e4e36df74dbd8fd12c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:14 +0000
Subject: [PATCH 72/79] fix: reading the static value of a test point raised an
 error

---
 phasor/readouts/testpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/readouts/testpoint.py b/phasor/readouts/testpoint.py
index e8ae31a..791cead 100644
--- a/phasor/readouts/testpoint.py
+++ b/phasor/readouts/testpoint.py
@@ -42,7 +42,7 @@ class Testpoint(base.SystemElementBase):
 
     @declarative.mproperty
     def DC(self):
-        sbunch = self.system.solution.driven_solution_get(self.port_set)
+        sbunch = self.system.solution.driven_solution_get('DC')
         pk_view = (self.port, self.key)
         val = sbunch.solution[pk_view]
         return val.real
-- 
2.43.0


From 0d93debb2e29069cd18ba53626996200d85a7230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:55 +0000
Subject: [PATCH 73/79] fix: continuous_phase raised an error for phases which
 wind

---
 phasor/utilities/np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/utilities/np.py b/phasor/utilities/np.py
index b216500..93b31fa 100644
--- a/phasor/utilities/np.py
+++ b/phasor/utilities/np.py
@@ -89,7 +89,7 @@ def continuous_phase(data, op_idx= 0, sep = (1.01) * np.pi, deg = False, shiftmo
     while raw_angle[op_idx] > np.pi:
         raw_angle -= 2*np.pi
 
-    median = np.sort(raw_angle)[len(raw_angle)/2]
+    median = np.sort(raw_angle)[len(raw_angle)//2]
     if median < -np.pi/4:
         raw_angle += np.pi * 2
 
-- 
2.43.0


From f67bc6dae7c9b189ce6055256d89406a12fcd6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:05 +0000
Subject: [PATCH 74/79] fix: first_non_NaN raised an error, or overlooked
 entries near the end

---
 phasor/utilities/np.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/phasor/utilities/np.py b/phasor/utilities/np.py
index 93b31fa..597c510 100644
--- a/phasor/utilities/np.py
+++ b/phasor/utilities/np.py
@@ -143,19 +143,15 @@ def group_delay(F, data, mult = 3e8):
 def first_non_NaN(arr):
     idx_lower = 0
     idx_upper = len(arr)
-    N = 1
     if not cmath.isnan(arr[0]):
         return 0
-    while idx_lower + N < idx_upper:
-        if not cmath.isnan(arr[idx_lower + N]):
-            if N == 1:
-                return idx_lower + 1
-            else:
-                idx_lower = idx_lower + N/2
-                idx_upper = idx_lower + N
-                N = 1
+    #the entry at idx_lower is always NaN
+    while idx_lower + 1 < idx_upper:
+        idx_mid = (idx_lower + idx_upper) // 2
+        if cmath.isnan(arr[idx_mid]):
+            idx_lower = idx_mid
         else:
-            N *= 2
+            idx_upper = idx_mid
     return idx_upper
 
 
-- 
2.43.0


From 845162b4b805f1d26e36ffef3fe3b470db2b2951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:42 +0000
Subject: [PATCH 75/79] fix: unit_str wrote centimeters as if they were
 multiples of 100 m

---
 phasor/alm/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/alm/utils.py b/phasor/alm/utils.py
index 0988785..ed20390 100644
--- a/phasor/alm/utils.py
+++ b/phasor/alm/utils.py
@@ -113,7 +113,7 @@ def unit_str(val, unit, d=3, use_c = False):
         div = 1
     elif v > 1e-2 and use_c:
         prefix = 'c'
-        div = 1e2
+        div = 1e-2
     elif v > 1e-3:
         prefix = 'm'
         div = 1e-3
-- 
2.43.0


From 02496cf2121adb8c220964ab285d22f050cabb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:42 +0000
Subject: [PATCH 76/79] fix: lengths below 1e-21 could not be written

---
 phasor/alm/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/alm/utils.py b/phasor/alm/utils.py
index ed20390..6b833e7 100644
--- a/phasor/alm/utils.py
+++ b/phasor/alm/utils.py
@@ -129,12 +129,12 @@ def unit_str(val, unit, d=3, use_c = False):
     elif v > 1e-18:
         prefix = 'a'
         div = 1e-18
-    elif v > 1e-21:
-        prefix = 'z'
-        div = 1e-21
-    elif v == 0:
+    elif v == 0 or v != v:
         div = 1
         prefix = ''
+    else:
+        prefix = 'z'
+        div = 1e-21
     nval = val / div
     if nval > 100:
         d -= 2
-- 
2.43.0


From c9e6bfd526d2cadac417e0511be778f3413f659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:42 +0000
Subject: [PATCH 77/79] fix: logarithmic ticks were labelled with the integer
 below where the ratio rounds down

---
 phasor/utilities/mpl/logticks.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/phasor/utilities/mpl/logticks.py b/phasor/utilities/mpl/logticks.py
index 96c5fdb..2c36efe 100644
--- a/phasor/utilities/mpl/logticks.py
+++ b/phasor/utilities/mpl/logticks.py
@@ -14,8 +14,14 @@ def ticks_log_format(value, index):
     """
     exp = np.floor(np.log10(value))
     base = value/10**exp
+    #the ratio may round to just below the integer
+    if abs(base - round(base)) < 1e-6:
+        base = round(base)
+        if base == 10:
+            base = 1
+            exp = exp + 1
     if exp == 0 or exp == 1:
-        return '${0:d}$'.format(int(value))
+        return '${0:d}$'.format(int(round(base * 10**exp, 6)))
     if exp == -1:
         return '${0:.1f}$'.format(value)
     else:
-- 
2.43.0


From b1376661be0d9717050c855ddaf1fa7e1b5d0a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:42 +0000
Subject: [PATCH 78/79] fix: the noise matrix of KTPTestStand lost its negative
 correlations

---
 phasor/optics/models/KTP_test_stand.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/optics/models/KTP_test_stand.py b/phasor/optics/models/KTP_test_stand.py
index 3fa3f3b..8fe88f2 100644
--- a/phasor/optics/models/KTP_test_stand.py
+++ b/phasor/optics/models/KTP_test_stand.py
@@ -134,7 +134,7 @@ class KTPTestStand(optics.OpticalCouplerBase):
             for idx_R, NR in enumerate(lst):
                 arr[idx_L, idx_R] = self.AC_N.CSD[(NL, NR)].real
         #clean up the presentation
-        arr[arr < 1e-10] = 0
+        arr[abs(arr) < 1e-10] = 0
         if display:
             try:
                 import tabulate
@@ -459,7 +459,7 @@ class OPOTestStandResonant(optics.OpticalCouplerBase):
                 print(NL, NR, val)
                 arr[idx_L, idx_R] = val
         #clean up the presentation
-        arr[arr < 1e-10] = 0
+        arr[abs(arr) < 1e-10] = 0
         if display:
             try:
                 import tabulate
-- 
2.43.0


From aa6ede9484fd5bdf15ff53f1a03c91ff68443a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:37 +0000
Subject: [PATCH 79/79] fix: working precision of the roots of Legendre filters
 grows with their order (orders above 11 did not converge)

---
 phasor/signals/filters/legendre_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/signals/filters/legendre_filters.py b/phasor/signals/filters/legendre_filters.py
index b28e2c2..9f04c8a 100644
--- a/phasor/signals/filters/legendre_filters.py
+++ b/phasor/signals/filters/legendre_filters.py
@@ -114,7 +114,7 @@ def _roots(a):
         TODO: How many digits are necessary for float equivalence?  Does it
         vary with order?
         """
-        p = mp.polyroots(a, maxsteps=1000, error=False)
+        p = mp.polyroots(a, maxsteps=1000, error=False, extraprec=10 * len(a))
         #p, err = mp.polyroots(a, maxsteps=1000, error=True)
         #if err > 1e-32:
         #    raise ValueError("Legendre filter cannot be accurately computed "
-- 
2.43.0

