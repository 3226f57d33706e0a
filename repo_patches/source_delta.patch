From 14b4711fbc8e29da9dd6cf47a9c8babc7db33d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:53 +0000
Subject: [PATCH 01/78] fix: power of a number-constrained fermionic Hilbert
 space

---
 GPSKet/hilbert/discrete_fermion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/hilbert/discrete_fermion.py b/GPSKet/hilbert/discrete_fermion.py
index 5ad7a34..75bae58 100644
--- a/GPSKet/hilbert/discrete_fermion.py
+++ b/GPSKet/hilbert/discrete_fermion.py
@@ -57,7 +57,7 @@ class FermionicDiscreteHilbert(HomogeneousHilbert):
         if self._n_elec is None:
             n_elec = None
         else:
-            n_elec = (n_elec[0] * n, n_elec[1] * n)
+            n_elec = (self._n_elec[0] * n, self._n_elec[1] * n)
 
         return FermionicDiscreteHilbert(self.size * n, n_elec=n_elec)
 
-- 
2.43.0


From a25bd61b3e2f44928fddbef74cf6e0e168d11e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:53 +0000
Subject: [PATCH 02/78] fix: parity of a hop when no cumulative count is passed

---
 GPSKet/operator/fermion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GPSKet/operator/fermion.py b/GPSKet/operator/fermion.py
index 4ffa2dd..0e93f27 100644
--- a/GPSKet/operator/fermion.py
+++ b/GPSKet/operator/fermion.py
@@ -26,7 +26,9 @@ def apply_hopping(
 
                 if cummulative_count is None:
                     parity_count = np.sum(
-                        (x_prime[left_limit:right_limit] & spin_int).astype(np.bool)
+                        (x_prime[left_limit + 1 : right_limit + 1] & spin_int).astype(
+                            np.bool
+                        )
                     )
                 else:
                     parity_count = (
-- 
2.43.0


From 9c8ae8c744c7de8575b9fa0521aa598631870c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:53 +0000
Subject: [PATCH 03/78] fix: set the Hubbard sections also for a lattice
 without edges

---
 GPSKet/operator/hamiltonian/hubbard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/hubbard.py b/GPSKet/operator/hamiltonian/hubbard.py
index 7d0d610..3391860 100644
--- a/GPSKet/operator/hamiltonian/hubbard.py
+++ b/GPSKet/operator/hamiltonian/hubbard.py
@@ -90,7 +90,7 @@ class FermiHubbard(FermionicDiscreteOperator):
                 )
                 count += 1
 
-                sections[batch_id] = count
+            sections[batch_id] = count
         return x_prime, mels
 
 
-- 
2.43.0


From a52d3bf2c8a59d59eca15c0a6537a1d96c2b78c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:53 +0000
Subject: [PATCH 04/78] fix: ASEP is hermitian only if forward and backward
 boundary rates agree

---
 GPSKet/operator/hamiltonian/asep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/asep.py b/GPSKet/operator/hamiltonian/asep.py
index 469064a..a9ed632 100644
--- a/GPSKet/operator/hamiltonian/asep.py
+++ b/GPSKet/operator/hamiltonian/asep.py
@@ -35,7 +35,7 @@ class AsymmetricSimpleExclusionProcess(DiscreteOperator):
     @property
     def is_hermitian(self) -> bool:
         flag = False
-        params_equal = np.sum([self.alpha, self.beta, self.gamma, self.delta]) == 2.0
+        params_equal = self.alpha == self.gamma and self.beta == self.delta
         if self.lambd == 0.0 and params_equal and self.p == self.q:
             flag = True
         return flag
-- 
2.43.0


From 229150e5fab55392035758b2e8c7a5e92b31bbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:53 +0000
Subject: [PATCH 05/78] fix: build the on-the-fly Heisenberg Hamiltonian from
 the Heisenberg operator

---
 GPSKet/operator/hamiltonian/J1J2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/J1J2.py b/GPSKet/operator/hamiltonian/J1J2.py
index 6fe0adc..dabf0cb 100644
--- a/GPSKet/operator/hamiltonian/J1J2.py
+++ b/GPSKet/operator/hamiltonian/J1J2.py
@@ -10,7 +10,7 @@ from typing import Optional
 
 
 # dummy class used if the local energy should be evaluated on the fly (allowing for fast updating)
-class HeisenbergOnTheFly(nk.operator.LocalOperator):
+class HeisenbergOnTheFly(nk.operator.Heisenberg):
     pass
 
 
-- 
2.43.0


From 5a3ccd72b21fdf1a0cfb21cb58cc385e167fca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:53 +0000
Subject: [PATCH 06/78] fix: accept a single sign-rule flag for the J1-J2
 Hamiltonian

---
 GPSKet/operator/hamiltonian/J1J2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPSKet/operator/hamiltonian/J1J2.py b/GPSKet/operator/hamiltonian/J1J2.py
index dabf0cb..ab4a935 100644
--- a/GPSKet/operator/hamiltonian/J1J2.py
+++ b/GPSKet/operator/hamiltonian/J1J2.py
@@ -47,6 +47,9 @@ def get_J1_J2_Hamiltonian(
         classtype = nk.operator.Heisenberg
 
     if J2 != 0:
+        # a single flag refers to the nearest-neighbour bonds, J2 bonds stay within a sublattice
+        if isinstance(sign_rule, bool):
+            sign_rule = (sign_rule, False)
         hamiltonian = classtype(hilbert, g, J=[J1 / 4, J2 / 4], sign_rule=sign_rule)
     else:
         hamiltonian = classtype(hilbert, g, J=J1 / 4, sign_rule=sign_rule)
-- 
2.43.0


From 6fe23ef3f953207dc595e7a9ec64140438486bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:04 +0000
Subject: [PATCH 07/78] fix: pass the values of jnp.where by position in the
 plaquette fast update

---
 GPSKet/models/plaquetteqGPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPSKet/models/plaquetteqGPS.py b/GPSKet/models/plaquetteqGPS.py
index 73bf554..1019fcb 100644
--- a/GPSKet/models/plaquetteqGPS.py
+++ b/GPSKet/models/plaquetteqGPS.py
@@ -142,13 +142,13 @@ class PlaquetteqGPS(nn.Module):
                     valid_elements = transformed_sites != -1
                     update = jnp.where(
                         jnp.expand_dims(valid_elements, 1),
-                        x=epsi[new_occs, :, transformed_sites],
-                        y=1.0,
+                        epsi[new_occs, :, transformed_sites],
+                        1.0,
                     ).prod(axis=0)
                     update /= jnp.where(
                         jnp.expand_dims(valid_elements, 1),
-                        x=epsi[old_occs, :, transformed_sites],
-                        y=1.0,
+                        epsi[old_occs, :, transformed_sites],
+                        1.0,
                     ).prod(axis=0)
                     return sp_old * update
 
-- 
2.43.0


From dd69f409fdeda122133a766f948d26c80737b1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:04 +0000
Subject: [PATCH 08/78] fix: keep the actual update of a repeatedly listed site
 in the plaquette cache

---
 GPSKet/models/plaquetteqGPS.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/GPSKet/models/plaquetteqGPS.py b/GPSKet/models/plaquetteqGPS.py
index 1019fcb..d562ae6 100644
--- a/GPSKet/models/plaquetteqGPS.py
+++ b/GPSKet/models/plaquetteqGPS.py
@@ -179,7 +179,17 @@ class PlaquetteqGPS(nn.Module):
             if update_sites is not None:
 
                 def update_fun(saved_config, update_sites, occs):
-                    return saved_config.at[update_sites].set(occs)
+                    # Reverse order so that actual updates (which come first)
+                    # take precedence over dummy updates of the same site
+                    def scan_fun(carry, count):
+                        return (carry.at[update_sites[count]].set(occs[count]), None)
+
+                    return jax.lax.scan(
+                        scan_fun,
+                        saved_config,
+                        jnp.arange(update_sites.shape[0]),
+                        reverse=True,
+                    )[0]
 
                 indices_save.value = jax.vmap(
                     update_fun, in_axes=(0, 0, 0), out_axes=0
-- 
2.43.0


From 49fb865830720b6a83ed1ca15ceeb20cd9d8f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:26 +0000
Subject: [PATCH 09/78] fix: support the advertised fast updates in the
 Slater-Jastrow model

---
 GPSKet/models/slater_jastrow.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/GPSKet/models/slater_jastrow.py b/GPSKet/models/slater_jastrow.py
index a577ff5..7268ef5 100644
--- a/GPSKet/models/slater_jastrow.py
+++ b/GPSKet/models/slater_jastrow.py
@@ -41,7 +41,31 @@ class SlaterJastrow(nn.Module):
     """Whether magnetization should be conserved or not"""
 
     @nn.compact
-    def __call__(self, x) -> Array:
+    def __call__(self, x, cache_intermediates=False, update_sites=None) -> Array:
+        if cache_intermediates or (update_sites is not None):
+            indices_save = self.variable(
+                "intermediates_cache", "samples", lambda: jnp.zeros(0, dtype=x.dtype)
+            )
+        if update_sites is not None:
+
+            def update_fun(saved_config, update_sites, occs):
+                def scan_fun(carry, count):
+                    return (carry.at[update_sites[count]].set(occs[count]), None)
+
+                return jax.lax.scan(
+                    scan_fun,
+                    saved_config,
+                    jnp.arange(update_sites.shape[0]),
+                    reverse=True,
+                )[0]
+
+            full_x = jax.vmap(update_fun, in_axes=(0, 0, 0), out_axes=0)(
+                indices_save.value, update_sites, x
+            )
+        else:
+            full_x = x
+        if cache_intermediates:
+            indices_save.value = full_x
         slater = Slater(
             self.hilbert,
             n_determinants=self.n_determinants,
@@ -52,11 +76,11 @@ class SlaterJastrow(nn.Module):
             fixed_magnetization=self.fixed_magnetization,
             out_transformation=self.out_transformation,
             apply_fast_update=self.apply_fast_update,
-        )(x)
+        )(x, cache_intermediates=cache_intermediates, update_sites=update_sites)
         jastrow = Jastrow(
             self.hilbert,
             dtype=self.dtype,
             init_fun=self.jastrow_init_fun,
             apply_symmetries=self.jastrow_apply_symmetries,
-        )(x)
+        )(full_x)
         return slater + jastrow
-- 
2.43.0


From 58e46b2824e7a4c22a228065221a58da531b5bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:26 +0000
Subject: [PATCH 10/78] fix: support the advertised fast updates in the
 antisymmetric qGPS models

---
 GPSKet/models/asymm_qGPS.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/GPSKet/models/asymm_qGPS.py b/GPSKet/models/asymm_qGPS.py
index 323ccbf..cc95797 100644
--- a/GPSKet/models/asymm_qGPS.py
+++ b/GPSKet/models/asymm_qGPS.py
@@ -47,7 +47,9 @@ class ASymmqGPS(nn.Module):
     """Whether fast update is used in the computation of the Slater determinants"""
 
     @nn.compact
-    def __call__(self, x: Array) -> Array:
+    def __call__(
+        self, x: Array, cache_intermediates=False, update_sites=None
+    ) -> Array:
         assert self.n_determinants == self.coeffs.shape[0]
         if len(x.shape) == 1:
             x = jnp.expand_dims(x, 0)
@@ -80,7 +82,7 @@ class ASymmqGPS(nn.Module):
             out_transformation=out_transformation,
             apply_fast_update=self.apply_fast_update,
             spin_symmetry_by_structure=self.spin_symmetry_by_structure,
-        )(x)
+        )(x, cache_intermediates=cache_intermediates, update_sites=update_sites)
         return log_psi
 
 
@@ -110,7 +112,9 @@ class ASymmqGPSProd(nn.Module):
         assert self.n_determinants % 2 != 0
 
     @nn.compact
-    def __call__(self, x: Array) -> Array:
+    def __call__(
+        self, x: Array, cache_intermediates=False, update_sites=None
+    ) -> Array:
         if len(x.shape) == 1:
             x = jnp.expand_dims(x, 0)
         x = jnp.asarray(x, jnp.int32)  # (B, L)
@@ -131,5 +135,5 @@ class ASymmqGPSProd(nn.Module):
             out_transformation=out_transformation,
             apply_fast_update=self.apply_fast_update,
             spin_symmetry_by_structure=self.spin_symmetry_by_structure,
-        )(x)
+        )(x, cache_intermediates=cache_intermediates, update_sites=update_sites)
         return log_psi
-- 
2.43.0


From 2afc5b0f20925797d579bc9f871341161aae58f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:04 +0000
Subject: [PATCH 11/78] fix: apply the antisymmetric qGPS coefficients to the
 determinants

---
 GPSKet/models/asymm_qGPS.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/GPSKet/models/asymm_qGPS.py b/GPSKet/models/asymm_qGPS.py
index cc95797..e4b05a0 100644
--- a/GPSKet/models/asymm_qGPS.py
+++ b/GPSKet/models/asymm_qGPS.py
@@ -50,7 +50,8 @@ class ASymmqGPS(nn.Module):
     def __call__(
         self, x: Array, cache_intermediates=False, update_sites=None
     ) -> Array:
-        assert self.n_determinants == self.coeffs.shape[0]
+        assert self.coeffs.shape[0] in (1, self.n_determinants)
+        coeffs = jnp.asarray(self.coeffs).reshape((-1, 1, 1))  # (M, 1, 1)
         if len(x.shape) == 1:
             x = jnp.expand_dims(x, 0)
         x = jnp.asarray(x, jnp.int32)  # (B, L)
@@ -58,7 +59,7 @@ class ASymmqGPS(nn.Module):
         if self.symmetrization == "kernel":
 
             def out_transformation(y):
-                y = jnp.asarray(self.coeffs) * jnp.exp(y)  # (B, M, S, T)
+                y = coeffs * jnp.exp(y)  # (B, M, S, T)
                 y = jnp.sum(y, axis=1)  # (B, S, T)
                 y = jnp.sinh(jnp.sum(y, axis=(-2, -1)))  # (B,)
                 y = jnp.log(y)
@@ -67,7 +68,7 @@ class ASymmqGPS(nn.Module):
         elif self.symmetrization == "projective":
 
             def out_transformation(y):
-                y = jnp.asarray(self.coeffs) * jnp.exp(y)  # (B, M, S, T)
+                y = coeffs * jnp.exp(y)  # (B, M, S, T)
                 y = jnp.sinh(jnp.sum(y, axis=1))  # (B, S, T)
                 y = jnp.sum(y, axis=(-2, -1))  # (B,)
                 y = jnp.log(y)
-- 
2.43.0


From 1f3ee179b995f0de8f09fda11b8241d1b9c17dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:04 +0000
Subject: [PATCH 12/78] fix: use -jnp.inf instead of the removed jnp.NINF in
 the Pfaffian

---
 GPSKet/models/pfaffian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index 2b7b085..8d9ba37 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -69,7 +69,7 @@ def log_pfaffian(mat):
         value = jnp.where(
             matrix[index + 1, index] != 0.0,
             value + jnp.log(matrix[index, index + 1]),
-            jnp.NINF + 0.0j,
+            -jnp.inf + 0.0j,
         )
         t = matrix[index, (index + 2) :] / matrix[index, index + 1]
         matrix = matrix.at[index + 2 :, index + 2 :].add(
-- 
2.43.0


From 634e15d3ffe40727cd50452e82ec729d1790ca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:04 +0000
Subject: [PATCH 13/78] fix: expand the rotation dimension of the general
 Pfaffian state

---
 GPSKet/models/pfaffian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index 8d9ba37..fb02e14 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -125,6 +125,7 @@ class PfaffianState(nn.Module):
         self.out_transformation has the same meaning for this state as for the ZeroMagnetizationPfaffian
         below.
         """
+        out = jnp.expand_dims(out, axis=-2)
         return self.out_transformation(out)
 
 
-- 
2.43.0


From 2471be2ad9e641bbe637981722157696f40219fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:31 +0000
Subject: [PATCH 14/78] fix: a singular pairing matrix has zero Pfaffian
 instead of NaN

---
 GPSKet/models/pfaffian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index fb02e14..11490e2 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -71,7 +71,8 @@ def log_pfaffian(mat):
             value + jnp.log(matrix[index, index + 1]),
             -jnp.inf + 0.0j,
         )
-        t = matrix[index, (index + 2) :] / matrix[index, index + 1]
+        pivot = matrix[index, index + 1]
+        t = matrix[index, (index + 2) :] / jnp.where(pivot != 0.0, pivot, 1.0)
         matrix = matrix.at[index + 2 :, index + 2 :].add(
             jnp.outer(t, matrix[index + 2 :, index + 1])
         )
-- 
2.43.0


From 5c376996e4e2718304e16a671070a1adbf412058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:14 +0000
Subject: [PATCH 15/78] fix: evaluate the CPD backflow also for floating point
 samples

---
 GPSKet/models/cpd_backflow.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GPSKet/models/cpd_backflow.py b/GPSKet/models/cpd_backflow.py
index 8bf41b1..09b08fa 100644
--- a/GPSKet/models/cpd_backflow.py
+++ b/GPSKet/models/cpd_backflow.py
@@ -137,6 +137,8 @@ class CPDBackflow(nn.Module):
 
     @nn.compact
     def __call__(self, n, cache_intermediates=False, update_sites=None) -> Array:
+        # Occupations are used as indices below
+        n = jnp.asarray(n, jnp.int32)
         # Register cache variables for fast-updating
         if cache_intermediates or (update_sites is not None):
             if self.environments is not None:
-- 
2.43.0


From 821729416f9a7686674627e55639d0e63f2eae71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:14 +0000
Subject: [PATCH 16/78] fix: do not apply the CPD backflow update of a
 repeatedly listed site twice

---
 GPSKet/models/cpd_backflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/cpd_backflow.py b/GPSKet/models/cpd_backflow.py
index 09b08fa..378236f 100644
--- a/GPSKet/models/cpd_backflow.py
+++ b/GPSKet/models/cpd_backflow.py
@@ -151,6 +151,7 @@ class CPDBackflow(nn.Module):
             )
         # Update configurations if fast-updating is in use
         if update_sites is not None:
+            occ_new = n # occupations at the update sites, dummy updates keep the old occupation
             def update_fun(saved_config, update_sites, occs):
                 def scan_fun(carry, count):
                     return (carry.at[update_sites[count]].set(occs[count]), None)
@@ -181,7 +182,6 @@ class CPDBackflow(nn.Module):
         # Compute orbitals and log-determinant
         if update_sites is not None:
             site_products_old = saved_site_products.value
-            occ_new = jax.vmap(jnp.take, in_axes=(0, 0))(n, update_sites)
             occ_old = jax.vmap(jnp.take, in_axes=(0, 0))(saved_configs.value, update_sites)
             orbitals, site_products = CPD_with_cache_batched(
                 self._epsilon, site_products_old, occ_new, occ_old, update_sites) # (B, L, N), (B, L, N, M)
-- 
2.43.0


From 87842aaf1256d09863f86d2fb1154de25c2ea161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:14 +0000
Subject: [PATCH 17/78] fix: pass orbitals and corrections of the
 backflow-Jastrow model in the right order

---
 GPSKet/models/backflow_jastrow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/backflow_jastrow.py b/GPSKet/models/backflow_jastrow.py
index 731ac2d..a45dc38 100644
--- a/GPSKet/models/backflow_jastrow.py
+++ b/GPSKet/models/backflow_jastrow.py
@@ -44,8 +44,8 @@ class BackflowJastrow(nn.Module):
         for d in range(n_determinants):
             y = Backflow(
                 self.hilbert,
-                self.orbitals[d],
                 self.correction_fun[d],
+                self.orbitals[d],
                 apply_symmetries=self.backflow_apply_symmetries,
                 spin_symmetry_by_structure=self.spin_symmetry_by_structure,
                 fixed_magnetization=self.fixed_magnetization,
-- 
2.43.0


From 3cf638f3b68b21d9e9b7fcf52cab6b96f47a2315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:14 +0000
Subject: [PATCH 18/78] fix: support the advertised fast updates in the
 backflow-Jastrow model

---
 GPSKet/models/backflow_jastrow.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/GPSKet/models/backflow_jastrow.py b/GPSKet/models/backflow_jastrow.py
index a45dc38..1ad5e96 100644
--- a/GPSKet/models/backflow_jastrow.py
+++ b/GPSKet/models/backflow_jastrow.py
@@ -36,7 +36,31 @@ class BackflowJastrow(nn.Module):
     """Whether magnetization should be conserved or not"""
 
     @nn.compact
-    def __call__(self, x) -> Array:
+    def __call__(self, x, cache_intermediates=False, update_sites=None) -> Array:
+        if cache_intermediates or (update_sites is not None):
+            indices_save = self.variable(
+                "intermediates_cache", "samples", lambda: jnp.zeros(0, dtype=x.dtype)
+            )
+        if update_sites is not None:
+
+            def update_fun(saved_config, update_sites, occs):
+                def scan_fun(carry, count):
+                    return (carry.at[update_sites[count]].set(occs[count]), None)
+
+                return jax.lax.scan(
+                    scan_fun,
+                    saved_config,
+                    jnp.arange(update_sites.shape[0]),
+                    reverse=True,
+                )[0]
+
+            full_x = jax.vmap(update_fun, in_axes=(0, 0, 0), out_axes=0)(
+                indices_save.value, update_sites, x
+            )
+        else:
+            full_x = x
+        if cache_intermediates:
+            indices_save.value = full_x
         assert len(self.orbitals) == len(self.correction_fun)
         n_determinants = len(self.orbitals)
         batch_size = x.shape[0]
@@ -50,12 +74,12 @@ class BackflowJastrow(nn.Module):
                 spin_symmetry_by_structure=self.spin_symmetry_by_structure,
                 fixed_magnetization=self.fixed_magnetization,
                 apply_fast_update=self.apply_fast_update,
-            )(x)
+            )(x, cache_intermediates=cache_intermediates, update_sites=update_sites)
             log_det = log_det.at[:, d].set(y)
         backflow = jax.scipy.special.logsumexp(log_det, axis=-1)
         jastrow = Jastrow(
             self.hilbert,
             init_fun=self.jastrow_init_fun,
             apply_symmetries=self.jastrow_apply_symmetries,
-        )(x)
+        )(full_x)
         return jastrow + backflow
-- 
2.43.0


From 1d0abbbc9d3d836ac06ef5b6cc611ed2efff1ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:04 +0000
Subject: [PATCH 19/78] fix: only constrain the autoregressive conditionals in
 constrained Hilbert spaces

---
 GPSKet/models/autoreg_plaquetteqGPS.py | 13 +++++++------
 GPSKet/models/autoreg_qGPS.py          | 13 +++++++------
 GPSKet/models/autoreg_qGPS_full.py     | 15 ++++++++-------
 3 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/GPSKet/models/autoreg_plaquetteqGPS.py b/GPSKet/models/autoreg_plaquetteqGPS.py
index 05719d3..0576fa2 100644
--- a/GPSKet/models/autoreg_plaquetteqGPS.py
+++ b/GPSKet/models/autoreg_plaquetteqGPS.py
@@ -171,12 +171,13 @@ def _compute_conditional(
     # This is done by counting number of up/down spins until index, then if
     # n_spins is >= L/2 the probability of up/down spin at index should be 0,
     # i.e. the log probability becomes -inf
-    log_psi = gpu_cond(
-        index >= 0,
-        lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
-        lambda log_psi: log_psi,
-        log_psi,
-    )
+    if hilbert.constrained:
+        log_psi = gpu_cond(
+            index >= 0,
+            lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
+            lambda log_psi: log_psi,
+            log_psi,
+        )
     return n_spins, log_psi
 
 
diff --git a/GPSKet/models/autoreg_qGPS.py b/GPSKet/models/autoreg_qGPS.py
index 01887f2..9e67835 100644
--- a/GPSKet/models/autoreg_qGPS.py
+++ b/GPSKet/models/autoreg_qGPS.py
@@ -270,12 +270,13 @@ def _compute_conditional(
     # This is done by counting number of up/down spins until index, then if
     # n_spins is >= L/2 the probability of up/down spin at index should be 0,
     # i.e. the log probability becomes -inf
-    log_psi = gpu_cond(
-        index >= 0,
-        lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
-        lambda log_psi: log_psi,
-        log_psi,
-    )
+    if hilbert.constrained:
+        log_psi = gpu_cond(
+            index >= 0,
+            lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
+            lambda log_psi: log_psi,
+            log_psi,
+        )
     return (cache, n_spins), log_psi
 
 
diff --git a/GPSKet/models/autoreg_qGPS_full.py b/GPSKet/models/autoreg_qGPS_full.py
index b4928c5..f29e9c4 100644
--- a/GPSKet/models/autoreg_qGPS_full.py
+++ b/GPSKet/models/autoreg_qGPS_full.py
@@ -333,13 +333,14 @@ def _compute_conditional(
     # This is done by counting number of up/down spins until index, then if
     # n_spins is >= L/2 the probability of up/down spin at index should be 0,
     # i.e. the log probability becomes -inf
-    log_psi = gpu_cond(
-        index >= 0,
-        lambda log_psi: log_psi
-        + model.renormalize_log_psi(n_spins, model.hilbert, index),
-        lambda log_psi: log_psi,
-        log_psi,
-    )
+    if model.hilbert.constrained:
+        log_psi = gpu_cond(
+            index >= 0,
+            lambda log_psi: log_psi
+            + model.renormalize_log_psi(n_spins, model.hilbert, index),
+            lambda log_psi: log_psi,
+            log_psi,
+        )
     return n_spins, log_psi, context_prod
 
 
-- 
2.43.0


From 3be3ceafada12262fae078bcec6f82aedf1aede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:04 +0000
Subject: [PATCH 20/78] fix: only count spins in constrained autoregressive
 models

---
 GPSKet/models/autoreg_plaquetteqGPS.py | 13 +++++++------
 GPSKet/models/autoreg_qGPS.py          | 13 +++++++------
 GPSKet/models/autoreg_qGPS_full.py     | 13 +++++++------
 3 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/GPSKet/models/autoreg_plaquetteqGPS.py b/GPSKet/models/autoreg_plaquetteqGPS.py
index 0576fa2..200f554 100644
--- a/GPSKet/models/autoreg_plaquetteqGPS.py
+++ b/GPSKet/models/autoreg_plaquetteqGPS.py
@@ -159,12 +159,13 @@ def _compute_conditional(
     log_psi = out_transformation(site_prod)  # (B, D)
 
     # Update spins count if index is larger than 0, otherwise leave as is
-    n_spins = gpu_cond(
-        index > 0,
-        lambda n_spins: n_spins + count_spins(inputs_i),
-        lambda n_spins: n_spins,
-        n_spins,
-    )
+    if hilbert.constrained:
+        n_spins = gpu_cond(
+            index > 0,
+            lambda n_spins: n_spins + count_spins(inputs_i),
+            lambda n_spins: n_spins,
+            n_spins,
+        )
 
     # If Hilbert space associated with the model is constrained, i.e.
     # model has "n_spins" in "cache" collection, then impose total magnetization.
diff --git a/GPSKet/models/autoreg_qGPS.py b/GPSKet/models/autoreg_qGPS.py
index 9e67835..e40f18f 100644
--- a/GPSKet/models/autoreg_qGPS.py
+++ b/GPSKet/models/autoreg_qGPS.py
@@ -258,12 +258,13 @@ def _compute_conditional(
     log_psi = out_transformation(prods)  # (B, D)
 
     # Update spins count if index is larger than 0, otherwise leave as is
-    n_spins = gpu_cond(
-        index > 0,
-        lambda n_spins: n_spins + count_spins(inputs_i),
-        lambda n_spins: n_spins,
-        n_spins,
-    )
+    if hilbert.constrained:
+        n_spins = gpu_cond(
+            index > 0,
+            lambda n_spins: n_spins + count_spins(inputs_i),
+            lambda n_spins: n_spins,
+            n_spins,
+        )
 
     # If Hilbert space associated with the model is constrained, i.e.
     # model has "n_spins" in "cache" collection, then impose total magnetization.
diff --git a/GPSKet/models/autoreg_qGPS_full.py b/GPSKet/models/autoreg_qGPS_full.py
index f29e9c4..6a05f36 100644
--- a/GPSKet/models/autoreg_qGPS_full.py
+++ b/GPSKet/models/autoreg_qGPS_full.py
@@ -321,12 +321,13 @@ def _compute_conditional(
     # Slice inputs at index-1 to count previous spins
     inputs_i = inputs[:, index - 1]  # (B,)
     # Update spins count if index is larger than 0, otherwise leave as is
-    n_spins = gpu_cond(
-        index > 0,
-        lambda n_spins: n_spins + model.count_spins(inputs_i),
-        lambda n_spins: n_spins,
-        n_spins,
-    )
+    if model.hilbert.constrained:
+        n_spins = gpu_cond(
+            index > 0,
+            lambda n_spins: n_spins + model.count_spins(inputs_i),
+            lambda n_spins: n_spins,
+            n_spins,
+        )
 
     # If Hilbert space associated with the model is constrained, i.e.
     # model has "n_spins" in "cache" collection, then impose total magnetization.
-- 
2.43.0


From 2df97b799e8987ba37e54e81b4e389d544668627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:19 +0000
Subject: [PATCH 21/78] fix: choose the qGPS initialisation by the dtype of the
 parameters

---
 GPSKet/nn/initializers.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/GPSKet/nn/initializers.py b/GPSKet/nn/initializers.py
index 99074dc..8ec03ee 100644
--- a/GPSKet/nn/initializers.py
+++ b/GPSKet/nn/initializers.py
@@ -16,19 +16,15 @@ def normal(sigma=0.1, dtype=jnp.float_):
     Returns:
         init function with signature `(key, shape, dtype) -> Array`
     """
-    if jnp.iscomplexobj(dtype):
 
-        def init_fun(key, shape, dtype=dtype):
+    def init_fun(key, shape, dtype=dtype):
+        if jnp.issubdtype(dtype, jnp.complexfloating):
             phase = jax.random.normal(key, shape, jnp.float32) * sigma
             eps = jnp.exp(1j * phase).astype(dtype)
-            return eps
-
-    else:
-
-        def init_fun(key, shape, dtype=dtype):
+        else:
             eps = jnp.ones(shape, dtype)
             eps += jax.random.normal(key, shape, dtype) * sigma
-            return eps
+        return eps
 
     return init_fun
 
-- 
2.43.0


From 37bd7e268b7899dec8a39d9323e25ae9a6473c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:58 +0000
Subject: [PATCH 22/78] fix: support the advertised fast updates in the
 modulus-phase autoregressive qGPS

---
 GPSKet/models/autoreg_qGPS_full.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/GPSKet/models/autoreg_qGPS_full.py b/GPSKet/models/autoreg_qGPS_full.py
index 6a05f36..7fcbf5e 100644
--- a/GPSKet/models/autoreg_qGPS_full.py
+++ b/GPSKet/models/autoreg_qGPS_full.py
@@ -438,7 +438,13 @@ class ARqGPSModPhaseFull(ARqGPSFull):
             self.hilbert, self.hilbert.size, dtype=jnp.float64, init_fun=self.init_fun
         )
 
-    def __call__(self, inputs: Array) -> Array:
-        log_psi_mod = super().__call__(inputs)
-        log_psi_phase = self._qgps(inputs)
+    def __call__(
+        self, inputs: Array, cache_intermediates=False, update_sites=None
+    ) -> Array:
+        log_psi_mod = super().__call__(
+            inputs, cache_intermediates=cache_intermediates, update_sites=update_sites
+        )
+        log_psi_phase = self._qgps(
+            inputs, cache_intermediates=cache_intermediates, update_sites=update_sites
+        )
         return log_psi_mod + log_psi_phase * 1j
-- 
2.43.0


From f8a292a0f31484e7c50cc61aa5e63dfc699df4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:58 +0000
Subject: [PATCH 23/78] fix: cache the autoregressive context products with
 leading batch dimension

---
 GPSKet/models/autoreg_qGPS_full.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/GPSKet/models/autoreg_qGPS_full.py b/GPSKet/models/autoreg_qGPS_full.py
index 7fcbf5e..58633d7 100644
--- a/GPSKet/models/autoreg_qGPS_full.py
+++ b/GPSKet/models/autoreg_qGPS_full.py
@@ -214,7 +214,9 @@ class ARqGPSFull(AbstractARqGPS):
                     cont_prod.value for cont_prod in self._saved_context_product
                 ]
             else:
-                old_contexts = self._saved_context_product.value
+                old_contexts = jnp.swapaxes(
+                    self._saved_context_product.value, 0, 1
+                )  # (L, B, M, T)
 
             log_psi, context_products = jax.vmap(
                 _conditionals, in_axes=(None, -1, -1, -1), out_axes=(-1, -1)
@@ -249,7 +251,10 @@ class ARqGPSFull(AbstractARqGPS):
                 for i in range(len(context_products)):
                     self._saved_context_product[i].value = context_products[i]
             else:
-                self._saved_context_product.value = context_products
+                # All cached values carry the batch as leading dimension
+                self._saved_context_product.value = jnp.swapaxes(
+                    context_products, 0, 1
+                )  # (B, L, M, T)
             self._saved_configs.value = full_samples
 
         return log_psi_symm  # (B,)
-- 
2.43.0


From 4433cb7641d263543c752dee1f8cd050283b10f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:54 +0000
Subject: [PATCH 24/78] fix: base the exchange rule with updates on the
 exchange rule of NetKet

---
 GPSKet/sampler/rules/exchange_with_update.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/GPSKet/sampler/rules/exchange_with_update.py b/GPSKet/sampler/rules/exchange_with_update.py
index 8dbdf5f..6218097 100644
--- a/GPSKet/sampler/rules/exchange_with_update.py
+++ b/GPSKet/sampler/rules/exchange_with_update.py
@@ -1,16 +1,18 @@
 import jax
 import jax.numpy as jnp
-from flax import struct
-from netket.sampler.rules.exchange import ExchangeRule_
+from netket.sampler.rules.exchange import ExchangeRule
+from netket.utils import struct
 
 
-@struct.dataclass
-class ExchangeRuleWithUpdate(ExchangeRule_):
+class ExchangeRuleWithUpdate(ExchangeRule):
     """
     Exchange Update rule which also returns the list of affected sites which is required for the fast metropolis sampler
     """
 
-    returns_updates: bool = True
+    returns_updates: bool = struct.field(pytree_node=False, default=True)
+
+    def __init__(self, clusters):
+        super().__init__(clusters=clusters)
 
     def transition(rule, sampler, machine, parameters, state, key, σ):
         n_chains = σ.shape[0]
-- 
2.43.0


From 1736bbbc60da9199dda03de4479d4d6157ce629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:54 +0000
Subject: [PATCH 25/78] fix: count the accepted moves of the fast Metropolis
 sampler per chain

---
 GPSKet/sampler/metropolis_fast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/sampler/metropolis_fast.py b/GPSKet/sampler/metropolis_fast.py
index 06f8060..3231178 100644
--- a/GPSKet/sampler/metropolis_fast.py
+++ b/GPSKet/sampler/metropolis_fast.py
@@ -69,7 +69,7 @@ class MetropolisFastSampler(MetropolisSampler):
                 update, new_intermediates_cache, s["intermediates_cache"]
             )
 
-            s["accepted"] += do_accept.sum()
+            s["accepted"] += do_accept
 
             s["log_prob"] = jax.numpy.where(
                 do_accept.reshape(-1), proposal_log_prob, s["log_prob"]
-- 
2.43.0


From 76752e715501471f33ba957bc6ce884e4296dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:54 +0000
Subject: [PATCH 26/78] fix: keep the log-probability of the fast Metropolis
 sampler state in step with its configurations

---
 GPSKet/sampler/metropolis_fast.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPSKet/sampler/metropolis_fast.py b/GPSKet/sampler/metropolis_fast.py
index 3231178..c2bd778 100644
--- a/GPSKet/sampler/metropolis_fast.py
+++ b/GPSKet/sampler/metropolis_fast.py
@@ -93,6 +93,7 @@ class MetropolisFastSampler(MetropolisSampler):
         new_state = state.replace(
             rng=new_rng,
             σ=s["σ"],
+            log_prob=s["log_prob"],
             n_accepted_proc=s["accepted"],
             n_steps_proc=state.n_steps_proc
             + sampler.sweep_size * sampler.n_chains_per_rank,
-- 
2.43.0


From 6a49895dde6773dbe5fd1344dae88fe500a577e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:12 +0000
Subject: [PATCH 27/78] fix: evaluate on-the-fly ab initio energies also with
 empty or full spin channels

---
 GPSKet/operator/hamiltonian/ab_initio.py      | 48 +++++++++++--------
 .../operator/hamiltonian/ab_initio_sparse.py  | 34 +++++++++----
 2 files changed, 53 insertions(+), 29 deletions(-)

diff --git a/GPSKet/operator/hamiltonian/ab_initio.py b/GPSKet/operator/hamiltonian/ab_initio.py
index 1e6fd40..8fd6051 100644
--- a/GPSKet/operator/hamiltonian/ab_initio.py
+++ b/GPSKet/operator/hamiltonian/ab_initio.py
@@ -240,6 +240,16 @@ def get_parity_multiplicator_hop(update_sites, cummulative_el_count):
     return jnp.int32(1) - 2 * (parity_count & 1)
 
 
+""" Wrapper around jax.lax.fori_loop (over a statically known range) which does not trace the
+loop body if there is nothing to loop over, e.g. for empty or fully occupied spin channels."""
+
+
+def fori_loop_non_empty(lower, upper, body_fun, init_val):
+    if upper <= lower:
+        return init_val
+    return jax.lax.fori_loop(lower, upper, body_fun, init_val)
+
+
 """
 If the flag return_local_RDMs is set to true, this function also returns objects resembling the 1-RDMS and 2-RDMS for the samples.
 In particular, two t_RDM and eri_RDM are evaluated for each sample which describe the linear dependency
@@ -315,9 +325,9 @@ def local_en_on_the_fly(
                         down_occ_inds[innercount],
                     ].add(1)
 
-                return jax.lax.fori_loop(0, len(down_occ_inds), inner_update, val)
+                return fori_loop_non_empty(0, len(down_occ_inds), inner_update, val)
 
-            eri_RDM = jax.lax.fori_loop(0, len(up_occ_inds), update_eri, eri_RDM)
+            eri_RDM = fori_loop_non_empty(0, len(up_occ_inds), update_eri, eri_RDM)
 
             def update_eri(count, val):
                 def inner_update(innercount, innerval):
@@ -328,9 +338,9 @@ def local_en_on_the_fly(
                         up_occ_inds[innercount],
                     ].add(0.5)
 
-                return jax.lax.fori_loop(0, len(up_occ_inds), inner_update, val)
+                return fori_loop_non_empty(0, len(up_occ_inds), inner_update, val)
 
-            eri_RDM = jax.lax.fori_loop(0, len(up_occ_inds), update_eri, eri_RDM)
+            eri_RDM = fori_loop_non_empty(0, len(up_occ_inds), update_eri, eri_RDM)
 
             def update_eri(count, val):
                 def inner_update(innercount, innerval):
@@ -341,9 +351,9 @@ def local_en_on_the_fly(
                         up_occ_inds[count],
                     ].add(0.5)
 
-                return jax.lax.fori_loop(0, len(up_unocc_inds), inner_update, val)
+                return fori_loop_non_empty(0, len(up_unocc_inds), inner_update, val)
 
-            eri_RDM = jax.lax.fori_loop(0, len(up_occ_inds), update_eri, eri_RDM)
+            eri_RDM = fori_loop_non_empty(0, len(up_occ_inds), update_eri, eri_RDM)
 
             def update_eri(count, val):
                 def inner_update(innercount, innerval):
@@ -354,9 +364,9 @@ def local_en_on_the_fly(
                         down_occ_inds[innercount],
                     ].add(0.5)
 
-                return jax.lax.fori_loop(0, len(down_occ_inds), inner_update, val)
+                return fori_loop_non_empty(0, len(down_occ_inds), inner_update, val)
 
-            eri_RDM = jax.lax.fori_loop(0, len(down_occ_inds), update_eri, eri_RDM)
+            eri_RDM = fori_loop_non_empty(0, len(down_occ_inds), update_eri, eri_RDM)
 
             def update_eri(count, val):
                 def inner_update(innercount, innerval):
@@ -367,9 +377,9 @@ def local_en_on_the_fly(
                         down_occ_inds[count],
                     ].add(0.5)
 
-                return jax.lax.fori_loop(0, len(down_unocc_inds), inner_update, val)
+                return fori_loop_non_empty(0, len(down_unocc_inds), inner_update, val)
 
-            eri_RDM = jax.lax.fori_loop(0, len(down_occ_inds), update_eri, eri_RDM)
+            eri_RDM = fori_loop_non_empty(0, len(down_occ_inds), update_eri, eri_RDM)
 
         # The following part evaluates the contributions from the connected configurations.
 
@@ -692,16 +702,16 @@ def local_en_on_the_fly(
                         * inner_loops
                     )
 
-            return jax.lax.fori_loop(
+            return fori_loop_non_empty(
                 0, len(up_unocc_inds), two_body_up_up_unocc, val_outer
             )
 
         if return_local_RDMs:
-            local_en, eri_RDM = jax.lax.fori_loop(
+            local_en, eri_RDM = fori_loop_non_empty(
                 0, len(up_occ_inds), two_body_up_up_occ, (local_en, eri_RDM)
             )
         else:
-            local_en = jax.lax.fori_loop(
+            local_en = fori_loop_non_empty(
                 0, len(up_occ_inds), two_body_up_up_occ, local_en
             )
 
@@ -810,16 +820,16 @@ def local_en_on_the_fly(
                         * inner_loops
                     )
 
-            return jax.lax.fori_loop(
+            return fori_loop_non_empty(
                 0, len(down_unocc_inds), two_body_down_down_unocc, val_outer
             )
 
         if return_local_RDMs:
-            local_en, eri_RDM = jax.lax.fori_loop(
+            local_en, eri_RDM = fori_loop_non_empty(
                 0, len(down_occ_inds), two_body_down_down_occ, (local_en, eri_RDM)
             )
         else:
-            local_en = jax.lax.fori_loop(
+            local_en = fori_loop_non_empty(
                 0, len(down_occ_inds), two_body_down_down_occ, local_en
             )
 
@@ -936,16 +946,16 @@ def local_en_on_the_fly(
                         * inner_loops
                     )
 
-            return jax.lax.fori_loop(
+            return fori_loop_non_empty(
                 0, len(up_unocc_inds), two_body_up_down_unocc, val_outer
             )
 
         if return_local_RDMs:
-            local_en, eri_RDM = jax.lax.fori_loop(
+            local_en, eri_RDM = fori_loop_non_empty(
                 0, len(up_occ_inds), two_body_up_down_occ, (local_en, eri_RDM)
             )
         else:
-            local_en = jax.lax.fori_loop(
+            local_en = fori_loop_non_empty(
                 0, len(up_occ_inds), two_body_up_down_occ, local_en
             )
 
diff --git a/GPSKet/operator/hamiltonian/ab_initio_sparse.py b/GPSKet/operator/hamiltonian/ab_initio_sparse.py
index bba7ac5..835fb92 100644
--- a/GPSKet/operator/hamiltonian/ab_initio_sparse.py
+++ b/GPSKet/operator/hamiltonian/ab_initio_sparse.py
@@ -155,6 +155,14 @@ def local_en_on_the_fly(
                 log_amp_connected = logpsi(pars, jnp.expand_dims(updated_config, 0))
             return log_amp_connected
 
+        # Sums the contributions over all indices, there are none if there are no indices (e.g.,
+        # for an empty spin channel) or no non-zero integrals
+        def sum_contributions(fun, inds, nonzero_vals):
+            n_inds = jax.tree_util.tree_leaves(inds)[0].shape[0]
+            if n_inds == 0 or nonzero_vals.shape[0] == 0:
+                return jnp.array(0, dtype=log_amp.dtype)
+            return jnp.sum(jax.vmap(fun)(inds))
+
         # Computes term from single electron hop
 
         # up spin
@@ -193,7 +201,7 @@ def local_en_on_the_fly(
                 jnp.array(0, dtype=log_amp.dtype),
             )
 
-        local_en = jnp.sum(jax.vmap(compute_1B_up)(up_occ_inds))
+        local_en = sum_contributions(compute_1B_up, up_occ_inds, h1_nonzero_vals_flat)
 
         def compute_1B_down(i):
             def inner_loop(a_index, val):
@@ -230,7 +238,9 @@ def local_en_on_the_fly(
                 jnp.array(0, dtype=log_amp.dtype),
             )
 
-        local_en += jnp.sum(jax.vmap(compute_1B_down)(down_occ_inds))
+        local_en += sum_contributions(
+            compute_1B_down, down_occ_inds, h1_nonzero_vals_flat
+        )
 
         # Helper function which updates a config, also taking into account a previous update
         def update_config(site, update_sites, updated_conf, spin_int, create):
@@ -297,8 +307,10 @@ def local_en_on_the_fly(
                 jnp.array(0, dtype=log_amp.dtype),
             )
 
-        local_en += jnp.sum(
-            jax.vmap(two_body_up_up_occ)(jnp.triu_indices(up_occ_inds.shape[0], k=1))
+        local_en += sum_contributions(
+            two_body_up_up_occ,
+            jnp.triu_indices(up_occ_inds.shape[0], k=1),
+            h2_nonzero_vals_flat,
         )
 
         def two_body_down_down_occ(inds):
@@ -351,10 +363,10 @@ def local_en_on_the_fly(
                 jnp.array(0, dtype=log_amp.dtype),
             )
 
-        local_en += jnp.sum(
-            jax.vmap(two_body_down_down_occ)(
-                jnp.triu_indices(down_occ_inds.shape[0], k=1)
-            )
+        local_en += sum_contributions(
+            two_body_down_down_occ,
+            jnp.triu_indices(down_occ_inds.shape[0], k=1),
+            h2_nonzero_vals_flat,
         )
 
         def two_body_up_down_occ(inds):
@@ -404,8 +416,10 @@ def local_en_on_the_fly(
             )
 
         row_inds, col_inds = jnp.indices((up_occ_inds.shape[0], down_occ_inds.shape[0]))
-        local_en += jnp.sum(
-            jax.vmap(two_body_up_down_occ)((row_inds.flatten(), col_inds.flatten()))
+        local_en += sum_contributions(
+            two_body_up_down_occ,
+            (row_inds.flatten(), col_inds.flatten()),
+            h2_nonzero_vals_flat,
         )
 
         return local_en
-- 
2.43.0


From 889c91f532b50b9edf966361d03e3e0085afb8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:04 +0000
Subject: [PATCH 28/78] fix: allow negative characters in the spin projection

---
 GPSKet/models/pfaffian.py | 2 +-
 GPSKet/models/slater.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index 11490e2..d02068a 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -186,6 +186,6 @@ class ZeroMagnetizationPfaffian(PfaffianState):
         vals = jax.vmap(evaluate_pfaff_rotations, out_axes=-2)(
             jnp.array(self.S2_projection[0])
         )
-        vals += jnp.log(jnp.asarray(self.S2_projection[1])).reshape((-1, 1))
+        vals += jnp.log(jnp.asarray(self.S2_projection[1]) + 0j).reshape((-1, 1))
 
         return self.out_transformation(vals)
diff --git a/GPSKet/models/slater.py b/GPSKet/models/slater.py
index a05d9d2..874cc44 100644
--- a/GPSKet/models/slater.py
+++ b/GPSKet/models/slater.py
@@ -685,7 +685,7 @@ class Slater(nn.Module):
 
         # Multiply with the prefactors from the symmetry projection
         if self.S2_projection is not None:
-            log_det_values += jnp.log(jnp.asarray(self.S2_projection[1])).reshape(
+            log_det_values += jnp.log(jnp.asarray(self.S2_projection[1]) + 0j).reshape(
                 (-1, 1)
             )
 
-- 
2.43.0


From 2f17a3dfe4b08b6bd017d40ac0e883b63c37e283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:46 +0000
Subject: [PATCH 29/78] fix: random fermionic configurations in the requested
 dtype also without electron number constraint

---
 GPSKet/hilbert/random/discrete_fermion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GPSKet/hilbert/random/discrete_fermion.py b/GPSKet/hilbert/random/discrete_fermion.py
index d229e68..b425cf1 100644
--- a/GPSKet/hilbert/random/discrete_fermion.py
+++ b/GPSKet/hilbert/random/discrete_fermion.py
@@ -11,7 +11,9 @@ def random_state(hilb: FermionicDiscreteHilbert, key, batches: int, *, dtype=jnp
     shape = (batches, hilb.size)
 
     if hilb._n_elec is None:
-        out = jax.random.choice(key, jnp.array(hilb.local_states), shape=shape)
+        out = jax.random.choice(
+            key, jnp.array(hilb.local_states, dtype=dtype), shape=shape
+        )
     else:
 
         def scan_fun(key, val):
-- 
2.43.0


From 323c853e09c3833ca92c02ac895a6dae4f033b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:25 +0000
Subject: [PATCH 30/78] fix: map local indices to spins by the ordering of the
 Hilbert space in on-the-fly energies

---
 GPSKet/operator/hamiltonian/J1J2.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/GPSKet/operator/hamiltonian/J1J2.py b/GPSKet/operator/hamiltonian/J1J2.py
index ab4a935..b7627c1 100644
--- a/GPSKet/operator/hamiltonian/J1J2.py
+++ b/GPSKet/operator/hamiltonian/J1J2.py
@@ -69,7 +69,7 @@ and connects the test configuration to at most one other different configuration
 
 
 def local_en_on_the_fly(
-    states_to_local_indices,
+    hilbert,
     logpsi,
     pars,
     samples,
@@ -94,7 +94,9 @@ def local_en_on_the_fly(
 
         def inner_vmap(operator_element, acting_on_element):
             rel_occ = sample[acting_on_element]
-            basis_index = jnp.sum(states_to_local_indices(rel_occ) * jnp.array([1, 2]))
+            basis_index = jnp.sum(
+                hilbert.states_to_local_indices(rel_occ) * jnp.array([1, 2])
+            )
             # the way this is set up at the moment is only valid for Heisenberg models where at most one non-zero off-diagonal exists
             off_diag_connected = jnp.array(
                 [0, 2, 1, 3]
@@ -102,9 +104,9 @@ def local_en_on_the_fly(
 
             def compute_element(connected_index):
                 mel = operator_element[basis_index, connected_index]
-                new_occ = (
-                    2 * jnp.array([connected_index % 2, connected_index // 2]) - 1.0
-                )  # map back to standard netket representation of spin configurations
+                new_occ = jnp.array(hilbert.local_states)[
+                    jnp.array([connected_index % 2, connected_index // 2])
+                ]  # map back to standard netket representation of spin configurations
                 if use_fast_update:
                     log_amp_connected = logpsi(
                         parameters,
@@ -147,7 +149,7 @@ def get_local_kernel(
         use_fast_update = False
     return nkjax.HashablePartial(
         local_en_on_the_fly,
-        op.hilbert.states_to_local_indices,
+        op.hilbert,
         use_fast_update=use_fast_update,
         chunk_size=chunk_size,
     )
-- 
2.43.0


From afc77cbb6a16bb6b92ab934067109d33d4e5847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:15 +0000
Subject: [PATCH 31/78] fix: zero instead of NaN amplitudes of forbidden
 configurations in complex autoregressive models

---
 GPSKet/models/autoreg_qGPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/autoreg_qGPS.py b/GPSKet/models/autoreg_qGPS.py
index e40f18f..94d2777 100644
--- a/GPSKet/models/autoreg_qGPS.py
+++ b/GPSKet/models/autoreg_qGPS.py
@@ -13,7 +13,7 @@ from GPSKet.models import qGPS
 
 def gpu_cond(pred, true_func, false_func, args):
     return jax.tree_util.tree_map(
-        lambda x, y: pred * x + (1 - pred) * y, true_func(args), false_func(args)
+        lambda x, y: jnp.where(pred, x, y), true_func(args), false_func(args)
     )
 
 
-- 
2.43.0


From 1af78e6211863f022ce1cb93f93ecebd0461521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:21 +0000
Subject: [PATCH 32/78] fix: do not move an electron out of an empty site in
 the hopping rule

---
 GPSKet/sampler/rules/fermionic_hopping.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/GPSKet/sampler/rules/fermionic_hopping.py b/GPSKet/sampler/rules/fermionic_hopping.py
index 5a241f8..201790a 100644
--- a/GPSKet/sampler/rules/fermionic_hopping.py
+++ b/GPSKet/sampler/rules/fermionic_hopping.py
@@ -39,9 +39,8 @@ def transition_function(
         else:
             target_site = jax.random.choice(keyD, samp.shape[-1], p=target_site_probs)
         # Make sure no unallowed move is applied
-        target_site = jnp.where(
-            target_site_probs[target_site] == False, start_site, target_site
-        )
+        is_allowed = target_site_probs[target_site] & spin_probs[spin - 1]
+        target_site = jnp.where(is_allowed, target_site, start_site)
         updated_sample = samp.at[start_site].add(-spin)
         updated_sample = updated_sample.at[target_site].add(spin)
 
-- 
2.43.0


From c114150abd5d6b2485b73e3599db472fe355fbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:36 +0000
Subject: [PATCH 33/78] fix: initialise Slater determinants also for empty spin
 channels

---
 GPSKet/models/slater.py   | 3 ++-
 GPSKet/nn/initializers.py | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/GPSKet/models/slater.py b/GPSKet/models/slater.py
index 874cc44..6b845f6 100644
--- a/GPSKet/models/slater.py
+++ b/GPSKet/models/slater.py
@@ -3,6 +3,7 @@ import numpy as np
 import jax.numpy as jnp
 from flax import linen as nn
 from typing import Tuple, Union, Optional
+from GPSKet.nn.initializers import orthogonal
 from GPSKet.hilbert import FermionicDiscreteHilbert
 from netket.utils.types import Array, Callable, DType, NNInitFunc
 from netket.utils import HashableArray
@@ -60,7 +61,7 @@ class Slater(nn.Module):
 
     init_fun: Union[
         NNInitFunc, Tuple[NNInitFunc, NNInitFunc]
-    ] = jax.nn.initializers.orthogonal()
+    ] = orthogonal()
 
     symmetries: Callable = lambda inputs: jnp.expand_dims(inputs, axis=-1)
 
diff --git a/GPSKet/nn/initializers.py b/GPSKet/nn/initializers.py
index 8ec03ee..ae0c586 100644
--- a/GPSKet/nn/initializers.py
+++ b/GPSKet/nn/initializers.py
@@ -51,6 +51,8 @@ def orthogonal(scale=1.0, column_axis=-1, dtype=jnp.float_):
             scale=scale, column_axis=column_axis, dtype=dtype
         )
         W = jnp.zeros(shape, dtype=dtype)
+        if W.size == 0:
+            return W
         keys = jax.random.split(key, shape[0])
         for i in range(shape[0]):
             ortho_matrix = ortho_init(keys[i], shape[-2:])
-- 
2.43.0


From 6a5ebdc2a798f249ea22d124613a4b2908f6e8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:56 +0000
Subject: [PATCH 34/78] fix: let samplers be replaced and hashed like other
 NetKet samplers

---
 GPSKet/sampler/autoreg.py         | 1 -
 GPSKet/sampler/metropolis_fast.py | 2 --
 2 files changed, 3 deletions(-)

diff --git a/GPSKet/sampler/autoreg.py b/GPSKet/sampler/autoreg.py
index 65f8d8d..7c6c20d 100644
--- a/GPSKet/sampler/autoreg.py
+++ b/GPSKet/sampler/autoreg.py
@@ -37,7 +37,6 @@ class ARDirectSamplerState(SamplerState):
         return f"{type(self).__name__}(rng state={self.key})"
 
 
-@struct.dataclass
 class ARDirectSampler(Sampler):
     """Direct sampler for autoregressive QGPS"""
 
diff --git a/GPSKet/sampler/metropolis_fast.py b/GPSKet/sampler/metropolis_fast.py
index c2bd778..f920951 100644
--- a/GPSKet/sampler/metropolis_fast.py
+++ b/GPSKet/sampler/metropolis_fast.py
@@ -1,6 +1,5 @@
 import jax
 import jax.numpy as jnp
-from netket.utils import struct
 from netket.sampler.metropolis import MetropolisSampler, MetropolisRule
 from netket.sampler.rules.exchange import compute_clusters
 
@@ -9,7 +8,6 @@ class MetropolisRuleWithUpdate(MetropolisRule):
     pass
 
 
-@struct.dataclass
 class MetropolisFastSampler(MetropolisSampler):
     """
     TODO: here we require some checking if the transition rule also returns the updates.
-- 
2.43.0


From ba9e1098edaf4587ba6208ecb8d3cde8a0363357 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 23:49:31 +0000
Subject: [PATCH 35/78] fix: construct the dense SR preconditioner and accept
 its default solver

---
 GPSKet/optimizer/solvers.py  | 3 ++-
 GPSKet/optimizer/sr_dense.py | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/GPSKet/optimizer/solvers.py b/GPSKet/optimizer/solvers.py
index 57e6d24..785cb6f 100644
--- a/GPSKet/optimizer/solvers.py
+++ b/GPSKet/optimizer/solvers.py
@@ -4,7 +4,8 @@ from netket.jax import tree_ravel
 
 def pinv(A, b, rcond=1e-12, x0=None):
     del x0
-    A = A.to_dense()
+    if hasattr(A, "to_dense"):
+        A = A.to_dense()
     b, unravel = tree_ravel(b)
     A_inv = jnp.linalg.pinv(A, rcond=rcond, hermitian=True)
     x = jnp.dot(A_inv, b)
diff --git a/GPSKet/optimizer/sr_dense.py b/GPSKet/optimizer/sr_dense.py
index d8ceaa0..ae0a4a9 100644
--- a/GPSKet/optimizer/sr_dense.py
+++ b/GPSKet/optimizer/sr_dense.py
@@ -1,17 +1,18 @@
 import jax
 import jax.numpy as jnp
 import netket.jax as nkjax
-from dataclasses import dataclass
 from typing import Callable, Optional, Any
 from netket.utils.types import PyTree, Scalar, ScalarOrSchedule
+from netket.utils import struct
 from netket.vqs import VariationalState
 from netket.optimizer.preconditioner import AbstractLinearPreconditioner
 from netket.optimizer.qgt import QGTJacobianDense
 from .solvers import pinv
 
 
-@dataclass
-class SRDense(AbstractLinearPreconditioner):
+class SRDense(AbstractLinearPreconditioner, mutable=True):
+    qgt_constructor: Callable = struct.static_field(default=None)
+
     def __init__(self, qgt: QGTJacobianDense, solver: Callable = pinv):
         self.qgt_constructor = qgt
         super().__init__(solver)
@@ -31,6 +32,8 @@ class SRDense(AbstractLinearPreconditioner):
 
         # Solve system
         x0 = self.solver(S, gradient)
+        if isinstance(x0, tuple):
+            x0, self.info = x0
         self.x0 = unravel_fun(x0)
 
         return self.x0
-- 
2.43.0


From 481172393cc0134bf4a142d7e20375aa557521f9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 23:49:31 +0000
Subject: [PATCH 36/78] fix: normalise the dense RMSProp quantum geometric
 tensor by the number of samples

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
index 62c0124..50da6bb 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
@@ -84,6 +84,7 @@ def QGTJacobianDenseRMSProp(
         chunk_size=chunk_size,
         dense=True,
         center=True,
+        _sqrt_rescale=True,
     )
 
     pars_struct = jax.tree_util.tree_map(
-- 
2.43.0


From 7631c80152eaf7d1617f089da45befdbc093a624 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 23:49:31 +0000
Subject: [PATCH 37/78] fix: weight the quantum geometric tensor of unique
 samples by the counts

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
index 13d4909..492e34f 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
@@ -71,6 +71,7 @@ def QGTJacobianDenseUniqueSamples(
         pdf=counts,
         dense=True,
         center=True,
+        _sqrt_rescale=True,
     )
 
     pars_struct = jax.tree_util.tree_map(
-- 
2.43.0


From 93d3da5f7536b8391c8b3c1dbdaab755672afaeb Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 23:49:31 +0000
Subject: [PATCH 38/78] fix: default and keep the diagonal shift of the unique
 samples quantum geometric tensor

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
index 492e34f..1d6dbd8 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
@@ -30,7 +30,7 @@ def QGTJacobianDenseUniqueSamples(
     *,
     mode: str = None,
     holomorphic: bool = None,
-    diag_shift=None,
+    diag_shift=0.0,
     diag_scale=None,
     **kwargs
 ) -> "QGTJacobianDenseT":
@@ -38,7 +38,11 @@ def QGTJacobianDenseUniqueSamples(
     assert diag_scale is None  # Not yet implemented -> TODO: implement support!
     if vstate is None:
         return partial(
-            QGTJacobianDenseUniqueSamples, mode=mode, holomorphic=holomorphic
+            QGTJacobianDenseUniqueSamples,
+            mode=mode,
+            holomorphic=holomorphic,
+            diag_shift=diag_shift,
+            **kwargs
         )
 
     if mode is None:
-- 
2.43.0


From 9485284996a61d98c1922ba22acfa08e54d52fc8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 23:49:31 +0000
Subject: [PATCH 39/78] fix: scale real and imaginary parts separately in the
 on-the-fly RMSProp quantum geometric tensor

---
 GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py b/GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py
index 8b8fd43..2cb4634 100644
--- a/GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py
+++ b/GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py
@@ -33,10 +33,15 @@ def mat_vec(jvp_fn, v, diag_shift, ema, eps):
     (res,) = tree_conj(vjp_fn(w.conjugate()))
     res = tree_map(lambda x: mpi.mpi_sum_jax(x)[0], res)
 
+    def scale(e, v):
+        # Real and imaginary parts are independent parameters with independent averages
+        if jnp.iscomplexobj(e):
+            return jax.lax.complex(scale(e.real, v.real), scale(e.imag, v.imag))
+        return (jnp.sqrt(e) + eps) * v
+
     # (1-diag_shift) * res + diag_shift * (sqrt(ema)+eps) * v
     return tree_map(
-        lambda r_, e_, v_: (1 - diag_shift) * r_
-        + diag_shift * (jnp.sqrt(e_) + eps) * v_,
+        lambda r_, e_, v_: (1 - diag_shift) * r_ + diag_shift * scale(e_, v_),
         res,
         ema,
         v,
-- 
2.43.0


From f798fba8893d5fcef106e2d50eabb8a7e7eb137a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 23:49:56 +0000
Subject: [PATCH 40/78] fix: keep local energies in the order of the samples in
 the minSR driver

---
 GPSKet/driver/minSR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/driver/minSR.py b/GPSKet/driver/minSR.py
index 3606ab3..d35ca64 100644
--- a/GPSKet/driver/minSR.py
+++ b/GPSKet/driver/minSR.py
@@ -60,7 +60,7 @@ class minSRVMC(VMC):
         counts = counts.reshape((-1,))
 
         # Compute local energies and center them
-        loc_ens = self.state.local_estimators(self._ham).T.reshape(-1)
+        loc_ens = self.state.local_estimators(self._ham).reshape(-1)
         self._loss_stats = _statistics(loc_ens, counts)
         loc_ens_centered = (loc_ens - self._loss_stats.mean) * jnp.sqrt(counts)
 
-- 
2.43.0


From f402e75234a5622923a68a62e0ab58fc01bf370e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Tue, 17 Nov 2026 23:50:09 +0000
Subject: [PATCH 41/78] fix: weight the log-derivatives by the sample counts in
 the minSR driver

---
 GPSKet/driver/minSR.py | 64 +++++++++++++-----------------------------
 1 file changed, 20 insertions(+), 44 deletions(-)

diff --git a/GPSKet/driver/minSR.py b/GPSKet/driver/minSR.py
index d35ca64..5252b93 100644
--- a/GPSKet/driver/minSR.py
+++ b/GPSKet/driver/minSR.py
@@ -105,9 +105,9 @@ class minSRVMC(VMC):
                 O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
 
             if loss_grad is None:
-                loss_grad, token = mpi.mpi_sum_jax(jnp.dot(O_i.T, loc_ens_centered[i]))
+                loss_grad, token = mpi.mpi_sum_jax(jnp.dot(O_i.T, loc_ens_centered[i] * jnp.sqrt(counts_i)))
             else:
-                _loss_grad, token = mpi.mpi_sum_jax(jnp.dot(O_i.T, loc_ens_centered[i]), token=token)
+                _loss_grad, token = mpi.mpi_sum_jax(jnp.dot(O_i.T, loc_ens_centered[i] * jnp.sqrt(counts_i)), token=token)
                 loss_grad += _loss_grad
 
             if O_avg is None:
@@ -116,31 +116,33 @@ class minSRVMC(VMC):
                 _O_avg, token = mpi.mpi_sum_jax(np.sum(O_i * counts_i[:, np.newaxis], axis=0), token=token)
                 O_avg += _O_avg
 
-        # Compute neural tangent kernel
-        for i in range(n_chunks):
-            idx_i = (
-                idx[i]
-                + mpi.node_number * self.state.chunk_size
-                + i * self.state.chunk_size * (mpi.n_nodes - 1)
-            )
-            idx_i, token = mpi.mpi_gather_jax(idx_i, token=token)
-            idx_i = idx_i.reshape(-1)
+        # Centered log-derivatives weighted with the square root of the counts
+        def centered_oks(i):
             O_i = nk.jax.jacobian(
                 self.state._apply_fun,
                 self.state.parameters,
                 samples[i],
                 self.state.model_state,
                 mode=self.mode,
-                pdf=counts[i],
                 dense=True,
                 center=False,
             )
+            if len(O_i.shape) == 3:
+                O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
+            return (O_i - O_avg) * jnp.sqrt(counts[i])[:, np.newaxis]
+
+        # Compute neural tangent kernel
+        for i in range(n_chunks):
+            idx_i = (
+                idx[i]
+                + mpi.node_number * self.state.chunk_size
+                + i * self.state.chunk_size * (mpi.n_nodes - 1)
+            )
+            idx_i, token = mpi.mpi_gather_jax(idx_i, token=token)
+            idx_i = idx_i.reshape(-1)
+            O_i = centered_oks(i)
             O_i, token = mpi.mpi_gather_jax(O_i, token=token)
             O_i = O_i.reshape((-1, *O_i.shape[2:]))
-            if mpi.rank == 0:
-                if len(O_i.shape) == 3:
-                    O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
-                O_i = O_i - O_avg
             for j in range(n_chunks):
                 idx_j = (
                     idx[j]
@@ -149,22 +151,10 @@ class minSRVMC(VMC):
                 )
                 idx_j, token = mpi.mpi_gather_jax(idx_j, token=token)
                 idx_j = idx_j.reshape(-1)
-                O_j = nk.jax.jacobian(
-                    self.state._apply_fun,
-                    self.state.parameters,
-                    samples[j],
-                    self.state.model_state,
-                    mode=self.mode,
-                    pdf=counts[j],
-                    dense=True,
-                    center=False,
-                )
+                O_j = centered_oks(j)
                 O_j, token = mpi.mpi_gather_jax(O_j, token=token)
                 O_j = O_j.reshape((-1, *O_j.shape[2:]))
                 if mpi.rank == 0:
-                    if len(O_j.shape) == 3:
-                        O_j = O_j[:, 0, :] + 1.0j * O_j[:, 1, :]
-                    O_j = O_j - O_avg
                     ii, jj = np.meshgrid(idx_i, idx_j, indexing="ij")
                     OO = OO.at[ii, jj].set(O_i.dot(O_j.conj().T))
 
@@ -189,21 +179,7 @@ class minSRVMC(VMC):
         OO_epsilon, token = mpi.mpi_scatter_jax(OO_epsilon, token=token)
 
         for i in range(n_chunks):
-            O_i = nk.jax.jacobian(
-                self.state._apply_fun,
-                self.state.parameters,
-                samples[i],
-                self.state.model_state,
-                mode=self.mode,
-                pdf=counts[i],
-                dense=True,
-                center=False,
-            )
-
-            if len(O_i.shape) == 3:
-                O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
-
-            O_i = O_i - O_avg
+            O_i = centered_oks(i)
 
             if dense_update is None:
                 dense_update = mpi.mpi_sum_jax(O_i.conj().T.dot(OO_epsilon[i]))[0]
-- 
2.43.0


From 8d8dfde3155857f3b7ec8b9c84a788f7407c2021 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:04:49 +0000
Subject: [PATCH 42/78] fix: construct stratified sampling states with the
 sampler interface of current NetKet

---
 GPSKet/vqs/mc/mc_state/state_stratified_sampling.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py b/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
index 0c8a089..64b2ff9 100644
--- a/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
+++ b/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
@@ -17,8 +17,6 @@ from netket.utils.mpi import (
 
 from typing import Tuple
 
-from dataclasses import replace
-
 """ Implements a state with stratified sampling, splitting the evaluation of expectation values
 into a determinisitic evaluation over a fixed set, and a sampled estimate over the complement.
 At the moment this is only an implementation for quick testing which is very slow.
@@ -38,9 +36,9 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
     ):
         super().__init__(*args, **kwargs)
 
-        self.n_sweeps = self.sampler.n_sweeps
+        self.n_sweeps = self.sampler.sweep_size
 
-        self.sampler = replace(self.sampler, n_sweeps=1)
+        self.sampler = self.sampler.replace(sweep_size=1)
 
         self.deterministic_samples = jnp.array_split(deterministic_samples, _n_nodes)[
             _rank
@@ -73,7 +71,7 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
             self.current_sample.append(samp)
             key = jax.random.split(key)[0]
         self.current_sample = jnp.array(np.array(self.current_sample))
-        self.sampler_state = replace(self.sampler_state, σ=self.current_sample)
+        self.sampler_state = self.sampler_state.replace(σ=self.current_sample)
 
         if not self.rand_norm:
             assert number_random_samples is None
@@ -103,7 +101,7 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
             np.expand_dims(valid, -1), self.current_sample, old_sample
         )
 
-        self.sampler_state = replace(self.sampler_state, σ=self.current_sample)
+        self.sampler_state = self.sampler_state.replace(σ=self.current_sample)
 
     @property
     def samples_with_counts(self) -> Tuple[jnp.ndarray, jnp.ndarray]:
-- 
2.43.0


From d990e23ae797d5f0741af371a4e7662a50563550 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:06:13 +0000
Subject: [PATCH 43/78] fix: weight energy gradients of unique samples by the
 counts

---
 GPSKet/vqs/mc/mc_state/state_unique_samples.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/GPSKet/vqs/mc/mc_state/state_unique_samples.py b/GPSKet/vqs/mc/mc_state/state_unique_samples.py
index da02888..5b39d43 100644
--- a/GPSKet/vqs/mc/mc_state/state_unique_samples.py
+++ b/GPSKet/vqs/mc/mc_state/state_unique_samples.py
@@ -1,7 +1,7 @@
 import netket as nk
 import netket.jax as nkjax
 import jax.numpy as jnp
-from typing import Tuple, Optional, Callable, Literal, Any
+from typing import Tuple, Optional, Callable, Any
 from collections import defaultdict
 import numpy as np
 
@@ -123,11 +123,10 @@ class MCStateUniqueSamples(nk.vqs.MCState):
 """ The following functions just override the NetKet implementation to inject the sample counts into the expectation value evaluation."""
 
 
-@nk.vqs.expect_and_grad.dispatch(precedence=10)
-def expect_and_grad(
+@nk.vqs.expect_and_forces.dispatch(precedence=10)
+def expect_and_forces(
     vstate: MCStateUniqueSamples,
     op: nk.operator.AbstractOperator,
-    use_covariance: Literal[True],
     chunk_size: Optional[int],
     *,
     mutable: Any
@@ -241,7 +240,7 @@ def grad_expect_hermitian_chunked(
         val_grad = vjp_fun((jnp.conjugate(loc_vals_centered)))[0]
 
         val_grad = jax.tree_util.tree_map(
-            lambda x, target: (x if jnp.iscomplexobj(target) else 2 * x.real).astype(
+            lambda x, target: (x if jnp.iscomplexobj(target) else x.real).astype(
                 target.dtype
             ),
             val_grad,
-- 
2.43.0


From b1619dd2b8f8a3aee8fc3f0c1c3033553fdd4d81 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:16:45 +0000
Subject: [PATCH 44/78] fix: choose the default mode of the dense RMSProp
 quantum geometric tensor

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
index 50da6bb..4a31756 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
@@ -58,7 +58,6 @@ def QGTJacobianDenseRMSProp(
             vstate.parameters,
             vstate.model_state,
             samples,
-            mode=mode,
             holomorphic=holomorphic,
         )
 
-- 
2.43.0


From 96301ef738fdfa16803efb25618803968c1890bc Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:20:53 +0000
Subject: [PATCH 45/78] fix: restart the moving average when the SR-RMSProp
 driver is reset

---
 GPSKet/driver/VMC_SRRMSProp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/GPSKet/driver/VMC_SRRMSProp.py b/GPSKet/driver/VMC_SRRMSProp.py
index 50f8d0b..6a7bb3c 100644
--- a/GPSKet/driver/VMC_SRRMSProp.py
+++ b/GPSKet/driver/VMC_SRRMSProp.py
@@ -147,11 +147,17 @@ class VMC_SRRMSProp(AbstractVariationalDriver):
             n_params = 2*self.state.n_parameters
         else:
             n_params = self.state.n_parameters
-        self._ema = jnp.full(n_params, initial_scale, jnp.float64)
+        self._initial_ema = jnp.full(n_params, initial_scale, jnp.float64)
+        self._ema = self._initial_ema
 
         _, unravel_params_fn = ravel_pytree(self.state.parameters)
         self._unravel_params_fn = jax.jit(unravel_params_fn)
 
+    def reset(self):
+        # The bias correction restarts with the step count, so must the moving average
+        super().reset()
+        self._ema = self._initial_ema
+
     @property
     def jacobian_mode(self) -> str:
         """
-- 
2.43.0


From 2007f5d444ddbee7801c779544109d9b1e863bc2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:38:34 +0000
Subject: [PATCH 46/78] fix: restore the samples of the state when the local
 energies of an imaginary-time step fail

The temporarily assigned samples stayed in the variational state if the
evaluation raised an exception.
---
 GPSKet/supervised/imag_time_step.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/GPSKet/supervised/imag_time_step.py b/GPSKet/supervised/imag_time_step.py
index 810a829..2bf6437 100644
--- a/GPSKet/supervised/imag_time_step.py
+++ b/GPSKet/supervised/imag_time_step.py
@@ -22,10 +22,12 @@ class ImagTimeStep:
         # This is a little bit hacky, the interface should probably be improved at one point
         old_samples = self.vstate._samples
         self.vstate._samples = samples
-        loc_ens = self.vstate.local_estimators(
-            self.hamiltonian, chunk_size=self.vstate.chunk_size
-        )
-        self.vstate._samples = old_samples
+        try:
+            loc_ens = self.vstate.local_estimators(
+                self.hamiltonian, chunk_size=self.vstate.chunk_size
+            )
+        finally:
+            self.vstate._samples = old_samples
         return loc_ens
 
     def log_imag_time_step(self, tau, samples):
-- 
2.43.0


From 0c48d47a7a3b0b875bfe2cc192506f46c858319c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:38:34 +0000
Subject: [PATCH 47/78] fix: propagate states with the on-the-fly Hubbard
 Hamiltonian

The kernel arguments are captured by the new model rather than traced, so
the numpy arrays of the Hubbard operator could not be indexed in the kernel.
---
 GPSKet/supervised/imag_time_step.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPSKet/supervised/imag_time_step.py b/GPSKet/supervised/imag_time_step.py
index 2bf6437..2cc2ee0 100644
--- a/GPSKet/supervised/imag_time_step.py
+++ b/GPSKet/supervised/imag_time_step.py
@@ -56,6 +56,7 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
     """
     log_model = vstate._apply_fun
     _, args = get_local_kernel_arguments(vstate, hamiltonian)
+    args = jax.tree_util.tree_map(jnp.asarray, args)
     if vstate.chunk_size is None:
         local_estimator_fun = get_local_kernel(vstate, hamiltonian)
     else:
-- 
2.43.0


From cf0709f4b88c53872685eef528e4fcbedc840f00 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:38:34 +0000
Subject: [PATCH 48/78] fix: keep the sign of imaginary-time propagated
 amplitudes

For real local energies the logarithm of 1 - tau E was taken in the reals,
giving NaN wherever the step changes the sign of the amplitude (and for
tau = 0).
---
 GPSKet/supervised/imag_time_step.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/imag_time_step.py b/GPSKet/supervised/imag_time_step.py
index 2cc2ee0..2f85add 100644
--- a/GPSKet/supervised/imag_time_step.py
+++ b/GPSKet/supervised/imag_time_step.py
@@ -34,7 +34,7 @@ class ImagTimeStep:
         samples_reshaped = samples.reshape((-1, samples.shape[-1]))
         self.log_amps = self.vstate.log_value(samples_reshaped)
         self.local_energies = self.get_local_energies(samples_reshaped)
-        return self.log_amps + jnp.log(1 - tau * self.local_energies)
+        return self.log_amps + jnp.log(1 - tau * self.local_energies + 0j)
 
 
 def get_imag_time_step_vstate(tau, hamiltonian, vstate):
@@ -67,7 +67,7 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
         samps = samples.reshape((-1, samples.shape[-1]))
         loc_ens = local_estimator_fun(log_model, pars, samps, args)
         log_amps = log_model(pars, samps)
-        return log_amps + jnp.log(1 / tau - 1 * loc_ens) + jnp.log(tau)
+        return log_amps + jnp.log(1 - tau * loc_ens + 0j)
 
     new_vstate = copy.deepcopy(vstate)
     new_vstate._apply_fun = imag_time_model_log_amp
-- 
2.43.0


From 6d73186a044ae3d945573de7b69c79761852f00d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:38:34 +0000
Subject: [PATCH 49/78] fix: allow nested imaginary-time steps

All steps stored their propagation time under the same key, which the
outermost step removed, so that evaluating a nested step raised a KeyError.
---
 GPSKet/supervised/imag_time_step.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/imag_time_step.py b/GPSKet/supervised/imag_time_step.py
index 2f85add..a47aeea 100644
--- a/GPSKet/supervised/imag_time_step.py
+++ b/GPSKet/supervised/imag_time_step.py
@@ -62,8 +62,13 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
     else:
         local_estimator_fun = get_local_kernel(vstate, hamiltonian, vstate.chunk_size)
 
+    # Each step of a nested propagation keeps its own propagation time
+    tau_key = "tau"
+    while tau_key in vstate.model_state:
+        tau_key += "_"
+
     def imag_time_model_log_amp(model_pars, samples):
-        pars, tau = freeze(model_pars).pop("tau")
+        pars, tau = freeze(model_pars).pop(tau_key)
         samps = samples.reshape((-1, samples.shape[-1]))
         loc_ens = local_estimator_fun(log_model, pars, samps, args)
         log_amps = log_model(pars, samps)
@@ -72,5 +77,5 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
     new_vstate = copy.deepcopy(vstate)
     new_vstate._apply_fun = imag_time_model_log_amp
     new_vstate._model = wrap_afun(imag_time_model_log_amp)
-    new_vstate.model_state = {"tau": tau, **new_vstate.model_state}
+    new_vstate.model_state = {tau_key: tau, **new_vstate.model_state}
     return new_vstate
-- 
2.43.0


From e2893120d209fbc983efce8c7aa567adcab0d42a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:30:08 +0000
Subject: [PATCH 50/78] fix: sign of the log-determinant in the noise
 derivative of the marginal likelihood

d log det(Sigma) = -tr(Sigma d(K^T S K)), so the noise optimisation followed a
gradient inconsistent with the likelihood it optimises.
---
 GPSKet/supervised/supervised_qgps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 85bcbe4..901de54 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -771,11 +771,11 @@ class QGPSLearningExp(QGPSLearning):
         KtK_der = KtK_der[np.ix_(self.active_elements, self.active_elements)]
 
         if self.cholesky:
-            derivative_noise = np.trace(
+            derivative_noise = -np.trace(
                 KtK_der.dot(self.Sinv_L.conj().T.dot(self.Sinv_L))
             )
         else:
-            derivative_noise = np.trace(KtK_der.dot(self.Sinv))
+            derivative_noise = -np.trace(KtK_der.dot(self.Sinv))
 
         if self.complex_expand and self.epsilon.dtype == complex:
             derivative_noise *= 0.5
-- 
2.43.0


From e6b4772a6d7c41e5670747f25374a8fc4160b2ba Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:30:08 +0000
Subject: [PATCH 51/78] fix: noise estimation of log-space fits with expanded
 complex parameters

The kernel matrix has half as many columns as there are weights if the
complex parameters are expanded, so estimating the noise raised a ValueError.
---
 GPSKet/supervised/supervised_qgps.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 901de54..94d3c7c 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1107,7 +1107,11 @@ class QGPSLogSpaceFit(QGPSLearningExp):
             )
 
     def prediction_after_setup(self):
-        return self.K.dot(self.weights)
+        if self.complex_expand and self.epsilon.dtype == complex:
+            K = np.hstack((self.K, 1.0j * self.K))
+        else:
+            K = self.K
+        return K.dot(self.weights)
 
     def setup_fit(
         self, confset, log_amplitudes, ref_sites, weightings=None, prior_mean=0.0
-- 
2.43.0


From f3c784639f735854042b4c20af99576d0ac18bee Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:30:08 +0000
Subject: [PATCH 52/78] fix: noise derivative of the marginal likelihood in
 log-space fits

The derivative by the noise is that by beta divided (not multiplied) by the
negative square of the noise, and has to be evaluated with the weights of the
current fit rather than with those of the last update.
---
 GPSKet/supervised/supervised_qgps.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 94d3c7c..788a307 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1214,13 +1214,14 @@ class QGPSLogSpaceFit(QGPSLearningExp):
             N = _mpi_sum(np.sum(self.weightings))
             squared_error = _mpi_sum(
                 np.sum(
-                    self.weightings * abs(self.fit_data - self.predict(self.confs)) ** 2
+                    self.weightings
+                    * abs(self.fit_data - self.prediction_after_setup()) ** 2
                 )
             )
         else:
             N = _mpi_sum(len(self.fit_data))
             squared_error = _mpi_sum(
-                np.sum(abs(self.fit_data - self.predict(self.confs)) ** 2)
+                np.sum(abs(self.fit_data - self.prediction_after_setup()) ** 2)
             )
 
         beta_derivative += N * self.noise_tilde
@@ -1229,7 +1230,7 @@ class QGPSLogSpaceFit(QGPSLearningExp):
         if self.epsilon.dtype == float:
             beta_derivative *= 0.5
 
-        return -(self.noise_tilde**2) * beta_derivative
+        return -beta_derivative / (self.noise_tilde**2)
 
     def fit_step(
         self,
-- 
2.43.0


From 5afbd29854b16c7f6d9f1a6c1960b96c7abd7d5f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:30:08 +0000
Subject: [PATCH 53/78] fix: weight the data term of the marginal likelihood in
 log-space fits

The quadratic term of the data ignored the weightings, which all the other
terms include.
---
 GPSKet/supervised/supervised_qgps.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 788a307..33a9ada 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1155,7 +1155,13 @@ class QGPSLogSpaceFit(QGPSLearningExp):
             else:
                 log_lik = -(len(self.fit_data) * np.log(2 * np.pi * self.noise_tilde))
 
-        log_lik -= np.dot(self.fit_data.conj(), self.fit_data) / self.noise_tilde
+        if self.weightings is not None:
+            log_lik -= (
+                np.dot(self.fit_data.conj(), self.weightings * self.fit_data)
+                / self.noise_tilde
+            )
+        else:
+            log_lik -= np.dot(self.fit_data.conj(), self.fit_data) / self.noise_tilde
         log_lik = _MPI_comm.allreduce(log_lik)
 
         if self.cholesky:
-- 
2.43.0


From f1ca146ae38a469bc02fa6bc3f4da219866ede1d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:30:08 +0000
Subject: [PATCH 54/78] fix: weight vanishing target amplitudes in fits of
 exponential models

The contributions of vanishing amplitudes ignored the weightings, and the
marginal likelihood of weighted data with vanishing amplitudes raised a
ValueError.
---
 GPSKet/supervised/supervised_qgps.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 33a9ada..fffa6ed 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -588,7 +588,12 @@ class QGPSLearningExp(QGPSLearning):
         )
 
         multiplicator = self.S_diag * self.fit_data
-        multiplicator[self.exp_amps == 0.0] = -1 / 2
+        if weightings is not None:
+            multiplicator[self.exp_amps == 0.0] = (
+                -weightings[self.exp_amps == 0.0] / 2
+            )
+        else:
+            multiplicator[self.exp_amps == 0.0] = -1 / 2
         self.y = _mpi_sum(self.K.conj().T.dot(multiplicator))
 
         if self.complex_expand and self.epsilon.dtype == complex:
@@ -617,24 +622,25 @@ class QGPSLearningExp(QGPSLearning):
 
     def log_marg_lik(self):
         if self.weightings is not None:
+            weightings = self.weightings[self.exp_amps != 0.0]
             if self.epsilon.dtype == complex:
                 log_lik = -(
                     np.sum(
-                        self.weightings
+                        weightings
                         * np.log(
                             np.pi
-                            / (self.S_diag[self.exp_amps != 0.0] / self.weightings)
+                            / (self.S_diag[self.exp_amps != 0.0] / weightings)
                         )
                     )
                 )
             else:
                 log_lik = -(
                     np.sum(
-                        self.weightings
+                        weightings
                         * np.log(
                             2
                             * np.pi
-                            / (self.S_diag[self.exp_amps != 0.0] / self.weightings)
+                            / (self.S_diag[self.exp_amps != 0.0] / weightings)
                         )
                     )
                 )
-- 
2.43.0


From 9dc24ee0068c17100c5d8b1c34db3fafe7f7f42f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:30:08 +0000
Subject: [PATCH 55/78] fix: likelihood derivative by the prior of features
 without data

The marginal likelihood does not depend on the prior of inactive features.
---
 GPSKet/supervised/supervised_qgps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index fffa6ed..0652ebc 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -329,7 +329,9 @@ class QGPSLearning:
         if self.complex_expand and self.epsilon.dtype == complex:
             derivative_alpha[self.active_elements] *= 0.5
 
-        derivative_alpha += 1 / (self.alpha_mat_ref_sites)
+        derivative_alpha[self.active_elements] += 1 / (
+            self.alpha_mat_ref_sites[self.active_elements]
+        )
         derivative_alpha -= (self.weights.conj() * self.weights).real
 
         if self.complex_expand or self.epsilon.dtype == float:
-- 
2.43.0


From 6939c8c114901ec97046f538a425241cd73e805a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:30:08 +0000
Subject: [PATCH 56/78] fix: do not modify the weightings passed to generalised
 linear model fits

---
 GPSKet/supervised/supervised_qgps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 0652ebc..f0a8bb3 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1336,7 +1336,7 @@ class QGPSGenLinMod(QGPSLearningExp):
             self.weightings = np.ones(len(self.exp_amps))
         else:
             self.weightings = weightings
-        self.weightings *= abs(prefactor) ** 2
+        self.weightings = self.weightings * abs(prefactor) ** 2
         self.N_data = _mpi_sum(np.sum(self.weightings))
         if self.noise_tilde != 0.0:
             self.beta = 1 / self.noise_tilde
-- 
2.43.0


From f0a6b79d8736c3f3a63fdba8c361bb173af2881b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:30:08 +0000
Subject: [PATCH 57/78] fix: keep the weights of generalised linear models when
 their prior changes

The weights were overwritten with zeros through an alias in every iteration
of the hyperparameter optimisation.
---
 GPSKet/supervised/supervised_qgps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index f0a8bb3..4b62bdc 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1371,7 +1371,7 @@ class QGPSGenLinMod(QGPSLearningExp):
                 if self.complex_expand and self.epsilon.dtype == complex:
                     weights = np.concatenate((weights.real, weights.imag))
             else:
-                weights = self.weights
+                weights = self.weights.copy()
 
         if self.complex_expand and self.epsilon.dtype == complex:
             K = np.hstack((self.K, 1.0j * self.K))
-- 
2.43.0


From fb1c17786f2b15b5232174cdb718f79d13fd6cb3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:30:08 +0000
Subject: [PATCH 58/78] fix: apply the Newton update of generalised linear
 models

The update was written to a temporary copy of the active weights.
---
 GPSKet/supervised/supervised_qgps.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 4b62bdc..365460a 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1556,10 +1556,7 @@ class QGPSGenLinMod(QGPSLearningExp):
             else:
                 gamma = 1.0
             if self.cholesky:
-                np.copyto(
-                    weights[self.active_elements],
-                    weights[self.active_elements] + gamma * update_directions,
-                )
+                weights[self.active_elements] += gamma * update_directions
             else:
                 if _rank == 0:
                     print("Cholesky fail")
-- 
2.43.0


From d38029d507e5162370ff77967c9df7f6c752d338 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:30:08 +0000
Subject: [PATCH 59/78] fix: growing relevance vector machine fits with NumPy 2

np.PINF and np.NINF have been removed.
---
 GPSKet/supervised/supervised_qgps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 365460a..a793567 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -997,7 +997,7 @@ class QGPSLearningExp(QGPSLearning):
         )
 
         deltaL[delete] = abs(Qdel) ** 2 / (Sdel - Adel) - np.log(1 - Sdel / Adel)
-        deltaL = np.nan_to_num(deltaL, nan=np.NINF, posinf=np.NINF, neginf=np.NINF)
+        deltaL = np.nan_to_num(deltaL, nan=-np.inf, posinf=-np.inf, neginf=-np.inf)
 
         # find feature which caused largest change in likelihood
 
@@ -1017,7 +1017,7 @@ class QGPSLearningExp(QGPSLearning):
                 self.active_elements[feature_index] == True
                 and np.sum(self.active_elements) >= 2
             ):
-                alpha[feature_index] = np.PINF
+                alpha[feature_index] = np.inf
         self.alpha_mat_ref_sites = alpha
 
         return
-- 
2.43.0


From be77aa5d70c957e7ebb3a53e4c7259db404914cc Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:30:08 +0000
Subject: [PATCH 60/78] fix: add the prior mean to the weights of growing
 relevance vector machine fits

---
 GPSKet/supervised/supervised_qgps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index a793567..b3394dd 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1069,7 +1069,7 @@ class QGPSLearningExp(QGPSLearning):
             self.setup_fit_alpha_dep()
 
         if not self.precomputed_features:
-            self.update_epsilon_with_weights()
+            self.update_epsilon_with_weights(prior_mean=prior_mean)
 
         return
 
-- 
2.43.0


From 888105e695179308b45499c25aab39098c7f08f5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:30:08 +0000
Subject: [PATCH 61/78] fix: restart the prior optimisation in every evaluation
 of the noise optimisation

The initial prior was written to a temporary copy, so that the optimised
likelihood depended on the previous evaluations.
---
 GPSKet/supervised/supervised_qgps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index b3394dd..ec57e03 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -831,7 +831,7 @@ class QGPSLearningExp(QGPSLearning):
             def ML(x):
                 self.noise_tilde = np.exp(x[0])
                 if opt_alpha:
-                    np.copyto(self.alpha_mat_ref_sites, alpha_init)
+                    self.alpha_mat_ref_sites = alpha_init.copy()
                 self.setup_fit_noise_dep(weightings=weightings)
                 if opt_alpha:
                     self.opt_alpha_beta(max_iterations=max_alpha_iterations, rvm=rvm)
@@ -840,7 +840,7 @@ class QGPSLearningExp(QGPSLearning):
             def derivative(x):
                 self.noise_tilde = np.exp(x[0])
                 if opt_alpha:
-                    np.copyto(self.alpha_mat_ref_sites, alpha_init)
+                    self.alpha_mat_ref_sites = alpha_init.copy()
                 self.setup_fit_noise_dep(weightings=weightings)
                 if opt_alpha:
                     self.opt_alpha_beta(max_iterations=max_alpha_iterations, rvm=rvm)
@@ -873,7 +873,7 @@ class QGPSLearningExp(QGPSLearning):
 
             self.noise_tilde = np.exp(opt.x)[0]
             if opt_alpha:
-                np.copyto(self.alpha_mat_ref_sites, alpha_init)
+                self.alpha_mat_ref_sites = alpha_init.copy()
             self.setup_fit_noise_dep(weightings=weightings)
 
         if opt_alpha:
-- 
2.43.0


From d4b3a1e20074c3e880d36fe6964e466534483662 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:30:08 +0000
Subject: [PATCH 62/78] fix: keep own copies of configurations and reference
 sites in the supervised learner

The cached site products were reused after the caller had changed the arrays
in place.
---
 GPSKet/supervised/supervised_qgps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index ec57e03..e81b462 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -100,7 +100,7 @@ class QGPSLearning:
                 self.epsilon.shape[1], dtype=int
             )
         else:
-            self._ref_sites = ref_sites_or_site
+            self._ref_sites = np.array(ref_sites_or_site)
         self._ref_sites_incr_dim = np.tile(
             self._ref_sites, (self.epsilon.shape[0], 1)
         ).T.flatten()
@@ -226,7 +226,7 @@ class QGPSLearning:
                 recompute_site_prod = True
 
             if recompute_site_prod:
-                self.confs = confs
+                self.confs = np.array(confs)
                 self.compute_site_prod()
                 self.K_per_sym = None
 
-- 
2.43.0


From d22f3c3b3f83144d87ac6d1cbcb449658b2b676e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:30:48 +0000
Subject: [PATCH 63/78] fix: relevance criterion of growing fits with complex
 parameters

The imaginary part of the quality factors was dropped, and with expanded
parameters their square lacked a factor of two, so that updating a prior could
decrease the marginal likelihood.
---
 GPSKet/supervised/supervised_qgps.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index e81b462..622477b 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -915,11 +915,13 @@ class QGPSLearningExp(QGPSLearning):
         else:
             XXa = self.KtK[:, self.active_elements]
             XS = np.dot(XXa, self.Sinv)
-            S = bxx - self.beta**2 * np.sum(XS * XXa, 1)
+            S = bxx - self.beta**2 * np.sum(XS * XXa.conj(), 1)
             Q = bxy - self.beta**2 * np.dot(XS, self.y[self.active_elements])
 
         S = S.real
-        Q = Q.real
+        # With expanded complex parameters the likelihood is exp(-|e|^2) rather than exp(-e^2/2)
+        if self.complex_expand and self.epsilon.dtype == complex:
+            Q = np.sqrt(2) * Q
         # Use following:
         # (EQ 1) q = A*Q/(A - S) ; s = A*S/(A-S), so if A = np.PINF q = Q, s = S
         qi = np.copy(Q)
-- 
2.43.0


From a39a58a3e369199020b923b11871c1f3e2c614dd Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:30:48 +0000
Subject: [PATCH 64/78] fix: assign the priors of expanded complex parameters
 to the right weights with a bias

The weights are ordered as real parts followed by imaginary parts, each
including the bias, whereas the priors had both bias elements at the end.
---
 GPSKet/supervised/supervised_qgps.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 622477b..da0d89c 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -114,15 +114,23 @@ class QGPSLearning:
         else:
             full_alpha = self.alpha_mat[self._ref_sites_incr_dim, self.feature_ids]
         if self.include_bias:
-            full_alpha = np.concatenate((full_alpha, self.alpha_bias))
+            if self.complex_expand and self.epsilon.dtype == complex:
+                # Same order as the weights: real parts (with bias), imaginary parts (with bias)
+                alpha_re, alpha_im = np.split(full_alpha, 2)
+                full_alpha = np.concatenate(
+                    (alpha_re, self.alpha_bias[:1], alpha_im, self.alpha_bias[1:])
+                )
+            else:
+                full_alpha = np.concatenate((full_alpha, self.alpha_bias))
         return full_alpha
 
     @alpha_mat_ref_sites.setter
     def alpha_mat_ref_sites(self, alpha):
         if self.include_bias:
             if self.complex_expand and self.epsilon.dtype == complex:
-                alpha_bias = alpha[-2:]
-                alpha_epsilon = alpha[:-2]
+                alpha_re, alpha_im = np.split(alpha, 2)
+                alpha_bias = np.array([alpha_re[-1], alpha_im[-1]])
+                alpha_epsilon = np.concatenate((alpha_re[:-1], alpha_im[:-1]))
             else:
                 alpha_bias = alpha[-1:]
                 alpha_epsilon = alpha[:-1]
-- 
2.43.0


From 164319f5f00a7c25a1278a10e7219ee3e7da8b57 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 02:24:06 +0000
Subject: [PATCH 65/78] fix: keep convolutions with even kernel sizes causal

---
 GPSKet/nn/causal_conv.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/GPSKet/nn/causal_conv.py b/GPSKet/nn/causal_conv.py
index 896392b..056e176 100644
--- a/GPSKet/nn/causal_conv.py
+++ b/GPSKet/nn/causal_conv.py
@@ -29,11 +29,17 @@ class MaskedConv2D(nn.Module):
             mask_ext = jnp.tile(mask_ext, (1, 1, x.shape[-1], self.features))
         else:
             mask_ext = self.mask
+        # The kernel element with index size // 2 acts on the output site, also for even kernel sizes
+        padding = [
+            ((size // 2) * self.dilation, ((size - 1) // 2) * self.dilation)
+            for size in self.mask.shape[:2]
+        ]
         # Convolution with masking
         x = nn.Conv(
             features=self.features,
             kernel_size=self.mask.shape[:2],
             kernel_dilation=self.dilation,
+            padding=padding,
             mask=mask_ext,
             param_dtype=self.param_dtype,
             kernel_init=self.kernel_init,
-- 
2.43.0


From 711123aaa37d7587f835bcc7e080ea2afef38a1c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 02:24:06 +0000
Subject: [PATCH 66/78] fix: recover from interrupted generation of the H2O
 data set

---
 GPSKet/datasets/h2o.py | 45 +++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/GPSKet/datasets/h2o.py b/GPSKet/datasets/h2o.py
index 391c9e0..2a19767 100644
--- a/GPSKet/datasets/h2o.py
+++ b/GPSKet/datasets/h2o.py
@@ -8,6 +8,18 @@ from pyscf import scf, gto, ao2mo, fci, ci, lo
 _DATA = "/tmp/GPSKet_data/"
 
 
+def _save(filename, array):
+    """Write an array so that an interruption never leaves an incomplete file behind"""
+    tmp = f"{filename}.{os.getpid()}.tmp"
+    try:
+        with open(tmp, "wb") as f:
+            np.save(f, array)
+        os.replace(tmp, filename)
+    finally:
+        if os.path.exists(tmp):
+            os.remove(tmp)
+
+
 def _H2O_raw(basis, method, datapath):
     mol = gto.Mole()
 
@@ -33,7 +45,12 @@ def _H2O_raw(basis, method, datapath):
         os.makedirs(datapath)
     dsid = f"{basis}_{method}"
 
-    if not os.path.exists(os.path.join(datapath, f"h1_{dsid}.npy")):
+    h1_file = os.path.join(datapath, f"h1_{dsid}.npy")
+    h2_file = os.path.join(datapath, f"h2_{dsid}.npy")
+    configs_file = os.path.join(datapath, f"all_configs_H2O_{dsid}.npy")
+    amplitudes_file = os.path.join(datapath, f"all_amplitudes_H2O_{dsid}.npy")
+
+    if not (os.path.exists(h1_file) and os.path.exists(h2_file)):
         loc_coeff = myhf.mo_coeff
         if basis != "CANONICAL":
             loc_coeff = lo.orth_ao(mol, "meta_lowdin")
@@ -55,15 +72,15 @@ def _H2O_raw(basis, method, datapath):
         # Find the hamiltonian in the local basis
         h1 = np.linalg.multi_dot((loc_coeff.T, myhf.get_hcore(), loc_coeff))
         h2 = ao2mo.restore(1, ao2mo.kernel(mol, loc_coeff), norb)
-        np.save(os.path.join(datapath, f"h1_{dsid}.npy"), h1)
-        np.save(os.path.join(datapath, f"h2_{dsid}.npy"), h2)
+        _save(h1_file, h1)
+        _save(h2_file, h2)
     else:
-        h1 = np.load(os.path.join(datapath, f"h1_{dsid}.npy"))
-        h2 = np.load(os.path.join(datapath, f"h2_{dsid}.npy"))
+        h1 = np.load(h1_file)
+        h2 = np.load(h2_file)
 
     nuc_en = mol.energy_nuc()
 
-    if not os.path.exists(os.path.join(datapath, f"all_configs_H2O_{dsid}.npy")):
+    if not (os.path.exists(configs_file) and os.path.exists(amplitudes_file)):
         if method == "FCI":
             # Run FCI
             cisolver = fci.direct_spin1.FCISolver(mol)
@@ -98,19 +115,11 @@ def _H2O_raw(basis, method, datapath):
                 amps.append(c[i, j])
         all_configurations = np.array(configs)
         all_amplitudes = np.array(amps)
-        np.save(
-            os.path.join(datapath, f"all_configs_H2O_{dsid}.npy"), all_configurations
-        )
-        np.save(
-            os.path.join(datapath, f"all_amplitudes_H2O_{dsid}.npy"), all_amplitudes
-        )
+        _save(configs_file, all_configurations)
+        _save(amplitudes_file, all_amplitudes)
     else:
-        all_configurations = np.load(
-            os.path.join(datapath, f"all_configs_H2O_{dsid}.npy")
-        )
-        all_amplitudes = np.load(
-            os.path.join(datapath, f"all_amplitudes_H2O_{dsid}.npy")
-        )
+        all_configurations = np.load(configs_file)
+        all_amplitudes = np.load(amplitudes_file)
 
     return all_configurations, all_amplitudes
 
-- 
2.43.0


From 4663b8a8329dcb6f5dfb0d7784be900dd683b489 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 04:23:15 +0000
Subject: [PATCH 67/78] fix: average the gradient of the state-fitting loss
 over the processes

The loss is the mean over the processes, its gradient was their sum: with P
processes every step was P times too long.
---
 GPSKet/driver/autoreg_state_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/driver/autoreg_state_fitting.py b/GPSKet/driver/autoreg_state_fitting.py
index 162737f..ce7f1af 100644
--- a/GPSKet/driver/autoreg_state_fitting.py
+++ b/GPSKet/driver/autoreg_state_fitting.py
@@ -90,6 +90,6 @@ def _loss_and_grad(params, model_state, logpsi, mini_batch):
         params, model_state, logpsi, mini_batch
     )
     loss, _ = mpi.mpi_mean_jax(loss)
-    grad = jax.tree_util.tree_map(lambda p: mpi.mpi_sum_jax(p)[0], grad)
+    grad = jax.tree_util.tree_map(lambda p: mpi.mpi_mean_jax(p)[0], grad)
     grad = jax.tree_util.tree_map(jnp.conj, grad)
     return loss, grad
-- 
2.43.0


From d49ea3739fe27b7f1e2ab07f0d3de113ff90d41e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 04:23:15 +0000
Subject: [PATCH 68/78] fix: run the SR-RMSProp driver on several processes

Processes other than the root reshaped quantities they do not hold, offered a
buffer of the wrong length for the broadcast of the updates, and could enter
the reduction of the log-derivatives while the root was gathering the local
energies (no token connected the two).
---
 GPSKet/driver/VMC_SRRMSProp.py | 35 ++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/GPSKet/driver/VMC_SRRMSProp.py b/GPSKet/driver/VMC_SRRMSProp.py
index 6a7bb3c..33c8483 100644
--- a/GPSKet/driver/VMC_SRRMSProp.py
+++ b/GPSKet/driver/VMC_SRRMSProp.py
@@ -23,32 +23,35 @@ def SRRMSProp(
 
     # Center local energies
     local_energies = local_energies.flatten()
+    token = None
     if e_mean is None:
-        e_mean = nkstats.mean(local_energies)
+        e_mean, token = mpi.mpi_mean_jax(local_energies.mean(), token=token)
     local_energies_centered = -2*jnp.conj(local_energies - e_mean) * jnp.sqrt(N_mc)
-    local_energies_centered, token = mpi.mpi_gather_jax(local_energies_centered)
+    local_energies_centered, token = mpi.mpi_gather_jax(local_energies_centered, token=token)
     local_energies_centered = local_energies_centered.reshape(-1, *local_energies_centered.shape[2:])
 
-    # Center jacobians
-    O_mean = nkstats.mean(O_L, axis=0)
+    # Center jacobians (the communication has to take place in the same order on all processes)
+    O_mean, token = mpi.mpi_mean_jax(O_L.mean(axis=0), token=token)
     O_L = (O_L - O_mean) * jnp.sqrt(N_mc)
     O_L, token = mpi.mpi_gather_jax(O_L, token=token)
     O_L = O_L.reshape(-1, *O_L.shape[2:])
 
-    # Convert quantities to dense format
-    if mode == "complex":
-        O_L = jnp.transpose(O_L, (1, 0, 2)).reshape(-1, O_L.shape[-1])
-        local_energies_centered = jnp.concatenate(
-            (jnp.real(local_energies_centered), -jnp.imag(local_energies_centered)),
-            axis=-1,
-            dtype=jnp.float64
-        )
-    elif mode == "real":
-        local_energies_centered = local_energies_centered.real
-    else:
+    if mode not in ("complex", "real"):
         raise NotImplementedError()
 
+    # Only the root process holds the gathered quantities
     if mpi.rank == 0:
+        # Convert quantities to dense format
+        if mode == "complex":
+            O_L = jnp.transpose(O_L, (1, 0, 2)).reshape(-1, O_L.shape[-1])
+            local_energies_centered = jnp.concatenate(
+                (jnp.real(local_energies_centered), -jnp.imag(local_energies_centered)),
+                axis=-1,
+                dtype=jnp.float64
+            )
+        else:
+            local_energies_centered = local_energies_centered.real
+
         # Compute gradient and update EMA of squared gradient
         gradient = O_L.T @ local_energies_centered
         ema = decay * ema + (1. - decay) * gradient**2
@@ -64,7 +67,7 @@ def SRRMSProp(
         if isinstance(updates, tuple):
             updates, _ = updates
     else:
-        updates = jnp.zeros(local_energies_centered.shape[0], dtype=jnp.float64)
+        updates = jnp.zeros_like(ema)
     updates, token = mpi.mpi_bcast_jax(updates, token=token, root=0)
     
     # If complex mode and we have complex parameters, we need
-- 
2.43.0


From f9c1290623830273c12ebfe3c2c8acd61db67c7f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 05:14:13 +0000
Subject: [PATCH 69/78] fix: keep a complete configuration when an experiment
 is interrupted while saving it

---
 scripts/ARGPS/argps/utils.py               | 4 +++-
 scripts/cpd-backflow/cpd_backflow/utils.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/ARGPS/argps/utils.py b/scripts/ARGPS/argps/utils.py
index b71c7af..d5962c9 100644
--- a/scripts/ARGPS/argps/utils.py
+++ b/scripts/ARGPS/argps/utils.py
@@ -8,10 +8,12 @@ from datetime import timedelta, time
 def save_config(workdir, config):
     os.makedirs(workdir, exist_ok=True)
     filepath = os.path.join(workdir, "config.yaml")
-    with open(filepath, "w") as f:
+    # An interrupted run can only be continued with a complete config file
+    with open(f"{filepath}.tmp", "w") as f:
         yaml.safe_dump(
             config.to_dict(), f, default_flow_style=False, allow_unicode=True
         )
+    os.replace(f"{filepath}.tmp", filepath)
 
 
 def read_config(workdir):
diff --git a/scripts/cpd-backflow/cpd_backflow/utils.py b/scripts/cpd-backflow/cpd_backflow/utils.py
index b095d07..f001d81 100644
--- a/scripts/cpd-backflow/cpd_backflow/utils.py
+++ b/scripts/cpd-backflow/cpd_backflow/utils.py
@@ -10,10 +10,12 @@ from flax import serialization
 def save_config(workdir, config):
     os.makedirs(workdir, exist_ok=True)
     filepath = os.path.join(workdir, "config.yaml")
-    with open(filepath, "w") as f:
+    # An interrupted run can only be continued with a complete config file
+    with open(f"{filepath}.tmp", "w") as f:
         yaml.safe_dump(
             config.to_dict(), f, default_flow_style=False, allow_unicode=True
         )
+    os.replace(f"{filepath}.tmp", filepath)
 
 
 def read_config(workdir):
-- 
2.43.0


From 9a0059dd32baf7565b68227a53231c4a18b9b6d3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 05:14:13 +0000
Subject: [PATCH 70/78] fix: keep the best parameters when an experiment is
 interrupted while saving them

---
 scripts/cpd-backflow/cpd_backflow/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/utils.py b/scripts/cpd-backflow/cpd_backflow/utils.py
index f001d81..45012f7 100644
--- a/scripts/cpd-backflow/cpd_backflow/utils.py
+++ b/scripts/cpd-backflow/cpd_backflow/utils.py
@@ -117,6 +117,7 @@ def save_best_params(workdir: str, params: PyTree, filename: str='best_params'):
     if not os.path.isdir(workdir):
         raise ValueError(f"The argument {workdir} is not a valid path to an existing directory.")
     params_file = os.path.join(workdir, f"{filename}.mpack")
-    with open(params_file, "wb") as f:
+    with open(f"{params_file}.tmp", "wb") as f:
         binary_data = serialization.to_bytes(params)
-        f.write(binary_data)
\ No newline at end of file
+        f.write(binary_data)
+    os.replace(f"{params_file}.tmp", params_file)
-- 
2.43.0


From 102fef21b62df8085b722f5ab28b348fcab3f015 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 05:14:13 +0000
Subject: [PATCH 71/78] fix: set up the Fermi-Hubbard system of a restarted
 experiment

---
 scripts/cpd-backflow/cpd_backflow/systems.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/cpd-backflow/cpd_backflow/systems.py b/scripts/cpd-backflow/cpd_backflow/systems.py
index 8699025..2c37ebe 100644
--- a/scripts/cpd-backflow/cpd_backflow/systems.py
+++ b/scripts/cpd-backflow/cpd_backflow/systems.py
@@ -214,6 +214,7 @@ def get_FermiHubbard_system(config: ConfigDict) -> FermiHubbardOnTheFly:
         g = nk.graph.Chain(Lx, pbc=config.pbc)
     if n_elec is None:
         n_elec = (g.n_nodes//2, g.n_nodes//2)
+    n_elec = tuple(n_elec) # The config of a restarted run holds a list
     hi = qk.hilbert.FermionicDiscreteHilbert(g.n_nodes, n_elec=n_elec)
 
     # Setup Hamiltonian
-- 
2.43.0


From 5b1fc4c120cdba2f9687a269203e698e96fc10d2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 05:14:13 +0000
Subject: [PATCH 72/78] fix: checkpoint the gradient average of the SR-RMSProp
 driver

---
 scripts/cpd-backflow/cpd_backflow/vmc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/vmc.py b/scripts/cpd-backflow/cpd_backflow/vmc.py
index 1977aa1..98985fb 100644
--- a/scripts/cpd-backflow/cpd_backflow/vmc.py
+++ b/scripts/cpd-backflow/cpd_backflow/vmc.py
@@ -65,7 +65,7 @@ def serialize_VMC_SRRMSProp(driver: VMC_SRRMSProp):
     state_dict = {
         "variables": serialization.to_state_dict(driver.state.variables),
         "optimizer": serialization.to_state_dict(driver._optimizer_state),
-        "ema": serialization.to_state_dict(driver.preconditioner._ema),
+        "ema": serialization.to_state_dict(driver._ema),
         "step": driver._step_count
     }
     return state_dict
@@ -90,8 +90,8 @@ serialization.register_serialization_state(
 
 serialization.register_serialization_state(
     VMC_SRRMSProp,
-    serialize_VMC,
-    deserialize_VMC
+    serialize_VMC_SRRMSProp,
+    deserialize_VMC_SRRMSProp
 )
 
 
-- 
2.43.0


From abfab328011c403c571ec2f9d344449abf717585 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 05:14:13 +0000
Subject: [PATCH 73/78] fix: perform every step of a restarted backflow
 experiment

---
 scripts/cpd-backflow/cpd_backflow/vmc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/vmc.py b/scripts/cpd-backflow/cpd_backflow/vmc.py
index 98985fb..cb17e3c 100644
--- a/scripts/cpd-backflow/cpd_backflow/vmc.py
+++ b/scripts/cpd-backflow/cpd_backflow/vmc.py
@@ -149,7 +149,7 @@ def main(argv):
         logger = CSVLogger(os.path.join(workdir, "metrics.csv"), fieldnames)
 
     # Run training loop
-    if initial_step < config.total_steps:
+    if initial_step <= config.total_steps:
         if _MPI_rank == 0:
             logging.info(f"Model has {vs.n_parameters} parameters")
             logging.info('Starting training loop; initial compile can take a while...')
@@ -202,7 +202,7 @@ def main(argv):
                 logging.info(f"Stored checkpoint at step {step} to {checkpoint_path}")
 
     # Descent finishing
-    if config.get('descent_finishing', None) and initial_step < config.total_steps + config.descent_finishing.total_steps:
+    if config.get('descent_finishing', None) and initial_step <= config.total_steps + config.descent_finishing.total_steps:
         # Switch to first SGD optimizer
         op = nk.optimizer.Sgd(learning_rate=config.descent_finishing.learning_rate)
         vmc.optimizer = op
@@ -216,7 +216,7 @@ def main(argv):
             best_energy = best_params["Energy"] if best_params else np.inf
             best_variance = best_params["Variance"] if best_params else np.inf
         total_steps = config.total_steps + config.descent_finishing.total_steps
-        for step in range(step+1, total_steps + 1):
+        for step in range(vmc.step_count + 1, total_steps + 1):
             # Training step
             vmc.advance()
             acceptance = vmc.state.sampler_state.acceptance
-- 
2.43.0


From 239e3497fe03b63560b67ba6adda02db7f03097d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 05:29:42 +0000
Subject: [PATCH 74/78] fix: set up the Hubbard chain with open boundary
 conditions

---
 scripts/ARGPS/argps/systems.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/ARGPS/argps/systems.py b/scripts/ARGPS/argps/systems.py
index a8812d2..2dbbc68 100644
--- a/scripts/ARGPS/argps/systems.py
+++ b/scripts/ARGPS/argps/systems.py
@@ -152,8 +152,9 @@ def get_Hubbard_system(config: ConfigDict) -> FermiHubbardOnTheFly:
     )
 
     # Setup Hamiltonian
-    edges = np.array([[i, (i + 1) % Lx] for i in range(Lx)])
-    t = t * np.ones(Lx)
+    n_bonds = Lx if config.pbc else Lx - 1
+    edges = np.array([[i, (i + 1) % Lx] for i in range(n_bonds)])
+    t = t * np.ones(n_bonds)
     if config.pbc and Lx % 4 == 0:
         t[-1] *= -1
     ha = FermiHubbardOnTheFly(hi, edges, U=U, t=t)
-- 
2.43.0


From 3a11b501f83c9756bc54951ade95f7a223e578b2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 05:29:42 +0000
Subject: [PATCH 75/78] fix: select the most coupled orbitals with the exchange
 matrix in the orbital basis

---
 scripts/cpd-backflow/cpd_backflow/models.py  | 9 ---------
 scripts/cpd-backflow/cpd_backflow/systems.py | 5 ++---
 2 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/models.py b/scripts/cpd-backflow/cpd_backflow/models.py
index cae23f2..d57efe4 100644
--- a/scripts/cpd-backflow/cpd_backflow/models.py
+++ b/scripts/cpd-backflow/cpd_backflow/models.py
@@ -302,15 +302,6 @@ def get_top_k_orbital_indices(config: ConfigDict, exchange_cutoff: int, workdir:
         else:
             raise FileNotFoundError('No exchange matrix found in workdir')
         
-        # Transform to a local orbital basis, if necessary
-        if 'local' in config.basis:
-            basis_path = os.path.join(workdir, 'basis.npy')
-            if os.path.exists(basis_path):
-                basis = np.load(basis_path) # (norb, norb)
-            else:
-                raise FileNotFoundError('No basis file found in workdir')
-            em = np.linalg.multi_dot((basis.T, em, basis))
-
         # Generate environment matrix of top-K closest coupled orbitals for each orbital
         top_k_orbital_indices = np.flip(np.argsort(np.abs(em), axis=1)[:, -exchange_cutoff:], axis=1)
     else:
diff --git a/scripts/cpd-backflow/cpd_backflow/systems.py b/scripts/cpd-backflow/cpd_backflow/systems.py
index 2c37ebe..27ce273 100644
--- a/scripts/cpd-backflow/cpd_backflow/systems.py
+++ b/scripts/cpd-backflow/cpd_backflow/systems.py
@@ -165,9 +165,8 @@ def get_molecular_system(config: ConfigDict, workdir: Optional[str]=None, store_
                 dm = mf.make_rdm1()
                 # Get exchange matrix
                 _, em = mf.get_jk(mol, dm)
-                # Transform to a local orbital basis, if necessary
-                if 'local' in config.basis:
-                    em = np.linalg.multi_dot((basis.T, em, basis))
+                # Transform to the orbital basis
+                em = np.linalg.multi_dot((basis.T, em, basis))
                 np.save(exchange_path, em)
     else:
         h1 = None
-- 
2.43.0


From f40f2c034c357bd1be0b80012217fd047e266033 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 05:29:42 +0000
Subject: [PATCH 76/78] fix: place the generalised orbitals of spin-polarised
 molecules

---
 scripts/cpd-backflow/cpd_backflow/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/models.py b/scripts/cpd-backflow/cpd_backflow/models.py
index d57efe4..c1083fe 100644
--- a/scripts/cpd-backflow/cpd_backflow/models.py
+++ b/scripts/cpd-backflow/cpd_backflow/models.py
@@ -237,7 +237,7 @@ def get_hf_orbitals_from_file(config: ConfigDict, n_elec: Tuple[int, int], workd
                 hf_orbitals_b = hf_orbitals[:, :n_elec[1]]
                 orbitals = np.zeros((2*norb, nelec))
                 orbitals[:norb, :n_elec[0]] = hf_orbitals_a
-                orbitals[norb:, n_elec[1]:] = hf_orbitals_b
+                orbitals[norb:, n_elec[0]:] = hf_orbitals_b
             else:
                 nelec = hf_orbitals.shape[1]*2
                 orbitals = np.zeros((2*norb, nelec))
-- 
2.43.0


From ab6d2f17d86b37dddbb2785a76a6096a7b72d4d3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 05:32:48 +0000
Subject: [PATCH 77/78] fix: run backflow experiments with an exchange cutoff

---
 scripts/cpd-backflow/cpd_backflow/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/models.py b/scripts/cpd-backflow/cpd_backflow/models.py
index c1083fe..2ed08c2 100644
--- a/scripts/cpd-backflow/cpd_backflow/models.py
+++ b/scripts/cpd-backflow/cpd_backflow/models.py
@@ -113,7 +113,8 @@ def get_model(config: ConfigDict, hilbert: HomogeneousHilbert, hamiltonian: Hami
             dtype=dtype,
             init_fun=init_fun,
             restricted=config.model.restricted,
-            fixed_magnetization=config.model.fixed_magnetization
+            fixed_magnetization=config.model.fixed_magnetization,
+            apply_fast_update=False # not available with environments
         )
     return ma
     
-- 
2.43.0


From c811824fefa679fe0fe31a488acd3f9909936ee5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 05:32:48 +0000
Subject: [PATCH 78/78] fix: set up generalised backflow orbitals with an
 exchange cutoff

---
 scripts/cpd-backflow/cpd_backflow/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/cpd-backflow/cpd_backflow/models.py b/scripts/cpd-backflow/cpd_backflow/models.py
index 2ed08c2..cb957c3 100644
--- a/scripts/cpd-backflow/cpd_backflow/models.py
+++ b/scripts/cpd-backflow/cpd_backflow/models.py
@@ -93,6 +93,9 @@ def get_model(config: ConfigDict, hilbert: HomogeneousHilbert, hamiltonian: Hami
                 config.model.exchange_cutoff,
                 workdir
             )
+            if not config.model.fixed_magnetization:
+                # Generalized spin-orbitals have the environment of their spatial orbital
+                environments = np.tile(environments, (2, 1))
             environments = HashableArray(environments)
         else:
             raise ValueError("Range cutoff is currently only supported for molecular systems.")
-- 
2.43.0

