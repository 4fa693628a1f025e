From 36c3dbf3e3b3164b349278df8e262b0022dd6eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:09 +0000
Subject: [PATCH 01/15] fix: change_basis must store the transformed spin
 operators

The transformed spin_x, spin_y, spin_z and spin_2 were assigned to a loop
variable and lost, leaving the spin operators in the old basis.
---
 quantum_systems/basis_set.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index ca737ba..fa7fd9c 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -343,10 +343,16 @@ class BasisSet:
                 self.s, C, C_tilde=C_tilde, np=self.np
             )
 
-        for spin in [self.spin_x, self.spin_y, self.spin_z, self.spin_2]:
+        for name in ["spin_x", "spin_y", "spin_z", "spin_2"]:
+            spin = getattr(self, name)
+
             if spin is not None:
-                spin = self.transform_one_body_elements(
-                    spin, C, C_tilde=C_tilde, np=self.np
+                setattr(
+                    self,
+                    name,
+                    self.transform_one_body_elements(
+                        spin, C, C_tilde=C_tilde, np=self.np
+                    ),
                 )
 
     def _change_basis_two_body_elements(self, C, C_tilde):
-- 
2.43.0


From 08c3040e74551d5fd50bc87659f58edf775a9dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:09 +0000
Subject: [PATCH 02/15] fix: ODSincDVR.set_u_repr must store the converted
 two-body elements

---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index a795410..ee5547a 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -130,6 +130,7 @@ class ODSincDVR(BasisSet):
 
         if new_repr == self.u_repr:
             print("u repr is already {}, doing nothing".format(new_repr))
+            return
         elif new_repr == "4d":
             new_u = np.zeros(
                 (self.l, self.l, self.l, self.l), dtype=self.u.dtype
@@ -143,6 +144,8 @@ class ODSincDVR(BasisSet):
                 "'{}' is not a valid representation".format(new_repr)
             )
 
+        self.u = new_u
+
     def construct_sinc_grid(self):
         x = self.grid
         return 1 / np.sqrt(self.dx) * np.sinc((x - x[:, None]) / self.dx)
-- 
2.43.0


From cce261446d387b5a8567898c83f8a27aa3b45f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:09 +0000
Subject: [PATCH 03/15] fix: accept the spin basis in
 ODSincDVR.change_to_general_orbital_basis

GeneralOrbitalSystem passes a and b, so no general orbital system could be
constructed from a sinc-DVR basis.
---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index ee5547a..64e6ada 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -179,7 +179,9 @@ class ODSincDVR(BasisSet):
     def construct_s(self):
         return np.eye(self.l)
 
-    def change_to_general_orbital_basis(self, anti_symmetrize=True):
+    def change_to_general_orbital_basis(
+        self, a=[1, 0], b=[0, 1], anti_symmetrize=True
+    ):
         if anti_symmetrize and self.u_repr == "2d":
             if self.l > 100:
                 warnings.warn(
@@ -188,7 +190,7 @@ class ODSincDVR(BasisSet):
 
             self.set_u_repr("4d")
         return super().change_to_general_orbital_basis(
-            anti_symmetrize=anti_symmetrize
+            a=a, b=b, anti_symmetrize=anti_symmetrize
         )
 
     def change_module(self, np):
-- 
2.43.0


From e61a1e508a0fc8ecb4cc5c1bd1acdeb7f153331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:09 +0000
Subject: [PATCH 04/15] fix: construct_general_orbital_system with a
 time-evolution operator

A deep copy follows the operator's reference to its system, whose array
module cannot be copied, and raises TypeError.
---
 quantum_systems/spatial_orbital_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantum_systems/spatial_orbital_system.py b/quantum_systems/spatial_orbital_system.py
index dab7624..690a74e 100644
--- a/quantum_systems/spatial_orbital_system.py
+++ b/quantum_systems/spatial_orbital_system.py
@@ -98,7 +98,7 @@ class SpatialOrbitalSystem(QuantumSystem):
 
         if not self._time_evolution_operator is None:
             gos.set_time_evolution_operator(
-                copy.deepcopy(self._time_evolution_operator)
+                copy.copy(self._time_evolution_operator)
             )
 
         return gos
-- 
2.43.0


From 016465e6760ef5f293411b343776cdc9c7e92a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:09 +0000
Subject: [PATCH 05/15] fix: derivative of the quartic term in
 SymmetricDWPotential

---
 quantum_systems/quantum_dots/one_dim/one_dim_potentials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py b/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
index 21aae87..f06e60f 100644
--- a/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
+++ b/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
@@ -85,7 +85,7 @@ class SymmetricDWPotential(OneDimPotential):
         return self.a * x ** 6 + self.b * x ** 4 + self.c * x ** 2
 
     def derivative(self, x):
-        return 6 * self.a * x ** 5 + 3 * self.b * x ** 3 + 2 * self.c * x
+        return 6 * self.a * x ** 5 + 4 * self.b * x ** 3 + 2 * self.c * x
 
 
 class AsymmetricDWPotential(OneDimPotential):
-- 
2.43.0


From 70fba3416181feb80cade30dab5b66ccb590b34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:09 +0000
Subject: [PATCH 06/15] fix: scale the two-dimensional Coulomb elements with
 the mass

The inverse oscillator length is sqrt(mass * omega), as used by the orbitals.
---
 quantum_systems/quantum_dots/two_dim/two_dim_ho.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_ho.py b/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
index 346d978..e59c86d 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
@@ -83,7 +83,7 @@ class TwoDimensionalHarmonicOscillator(BasisSet):
 
     def setup_basis(self):
         self._h = self.omega * get_one_body_elements(self.l)
-        self._u = np.sqrt(self.omega) * get_coulomb_elements(
+        self._u = np.sqrt(self.mass * self.omega) * get_coulomb_elements(
             self.l, verbose=self.verbose
         )
         self._s = np.eye(self.l)
@@ -290,7 +290,7 @@ class TwoDimHarmonicOscB(TwoDimensionalHarmonicOscillator):
 
         self._h = get_one_body_elements_B(num_orbitals, df=self.df)
         self._s = np.eye(num_orbitals)
-        self._u = np.sqrt(self.omega) * get_coulomb_elements_B(
+        self._u = np.sqrt(self.mass * self.omega) * get_coulomb_elements_B(
             num_orbitals, df=self.df
         )
 
-- 
2.43.0


From 904f0265b90320d27554b618bb1b9a2c1d87b17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:09 +0000
Subject: [PATCH 07/15] fix: include the mass in the two-dimensional
 double-well potential

---
 quantum_systems/quantum_dots/two_dim/two_dim_helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
index 6a9bf04..e5d7956 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
@@ -315,7 +315,7 @@ def get_double_well_one_body_elements(
 
         h[p, p] += (
             omega * get_shell_energy(n_p, m_p)
-            + omega ** 2 * barrier_strength ** 2 / 8.0
+            + mass * omega ** 2 * barrier_strength ** 2 / 8.0
         )
 
         for q in range(num_orbitals):
@@ -327,6 +327,7 @@ def get_double_well_one_body_elements(
 
             h[p, q] -= (
                 0.5
+                * mass
                 * omega ** 2
                 * barrier_strength
                 * spf_norm(n_p, m_p, mass, omega)
-- 
2.43.0


From 9550a175845e89e0b8502ca0269acdbb0f9fe351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:04 +0000
Subject: [PATCH 08/15] fix: copies of a basis whose potential holds the array
 module

copy.deepcopy raised TypeError on the module stored by GaussianPotential and
left the original without its array module.
---
 quantum_systems/basis_set.py | 2 +-
 quantum_systems/system.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index fa7fd9c..9ac86ab 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -756,7 +756,7 @@ class BasisSet:
         np = self.np
         self.np = None
 
-        new_basis = copy.deepcopy(self)
+        new_basis = copy.deepcopy(self, {id(np): np})
 
         new_basis.change_module(np)
         self.change_module(np)
diff --git a/quantum_systems/system.py b/quantum_systems/system.py
index 0856ad8..f037f7b 100644
--- a/quantum_systems/system.py
+++ b/quantum_systems/system.py
@@ -175,7 +175,7 @@ class QuantumSystem(metaclass=abc.ABCMeta):
         self.np = None
         self._basis_set.np = None
 
-        new_system = copy.deepcopy(self)
+        new_system = copy.deepcopy(self, {id(np): np})
 
         new_system.change_module(np)
         self.change_module(np)
-- 
2.43.0


From bc18bdb7f9cc30e8bc50b7bf3f8791467b5b9558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:06 +0000
Subject: [PATCH 09/15] fix: constant laser pulse with a constant polarization
 vector

Both wrappers in LaserField.h_t closed over the same local variable, so a
constant pulse was replaced by the polarization vector.
---
 quantum_systems/time_evolution_operators/operator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantum_systems/time_evolution_operators/operator.py b/quantum_systems/time_evolution_operators/operator.py
index 28ee11f..93fbdc6 100644
--- a/quantum_systems/time_evolution_operators/operator.py
+++ b/quantum_systems/time_evolution_operators/operator.py
@@ -89,8 +89,8 @@ class LaserField(TimeEvolutionOperator):
         np = self._system.np
 
         if not callable(self._laser_pulse):
-            tmp = self._laser_pulse
-            self._laser_pulse = lambda t: tmp
+            laser_pulse = self._laser_pulse
+            self._laser_pulse = lambda t: laser_pulse
 
         if self._polarization is None:
             # Set default polarization along x-axis
@@ -98,8 +98,8 @@ class LaserField(TimeEvolutionOperator):
             self._polarization[0] = 1
 
         if not callable(self._polarization):
-            tmp = self._polarization
-            self._polarization = lambda t: tmp
+            polarization = self._polarization
+            self._polarization = lambda t: polarization
 
         return self._system.h + self._laser_pulse(current_time) * np.tensordot(
             self._polarization(current_time),
-- 
2.43.0


From 6677e53492465cca484655005f3db2c13e227005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:15 +0000
Subject: [PATCH 10/15] fix: include the non-dipole term beta in the dipole
 elements of ODHO

---
 quantum_systems/quantum_dots/one_dim/one_dim_qd.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/quantum_systems/quantum_dots/one_dim/one_dim_qd.py b/quantum_systems/quantum_dots/one_dim/one_dim_qd.py
index 2d3c985..dcd6503 100644
--- a/quantum_systems/quantum_dots/one_dim/one_dim_qd.py
+++ b/quantum_systems/quantum_dots/one_dim/one_dim_qd.py
@@ -164,6 +164,17 @@ class ODHO(BasisSet):
             self.dipole_moment[0, n, n + 1] = dip_mom
             self.dipole_moment[0, n + 1, n] = dip_mom
 
+        # Non-dipole term beta * <n|x^2|m>
+        for n in range(self.l):
+            self.dipole_moment[0, n, n] = self.beta * (n + 0.5) / self.omega
+
+        for n in range(self.l - 2):
+            quad_mom = (
+                self.beta * np.sqrt((n + 1.0) * (n + 2.0)) / (2 * self.omega)
+            )
+            self.dipole_moment[0, n, n + 2] = quad_mom
+            self.dipole_moment[0, n + 2, n] = quad_mom
+
 
 class ODQD(BasisSet):
     """Create 1D quantum dot system
-- 
2.43.0


From 623fcaa62308b9c048f9fdd9864b150a583a9e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:06 +0000
Subject: [PATCH 11/15] fix: anti-symmetrize two-body elements in the 2d
 representation of ODSincDVR

---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index 64e6ada..9c7d65e 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -193,6 +193,13 @@ class ODSincDVR(BasisSet):
             a=a, b=b, anti_symmetrize=anti_symmetrize
         )
 
+    def anti_symmetrize_two_body_elements(self):
+        # There is no anti-symmetric version of the 2d representation
+        if not self._anti_symmetrized_u and self.u_repr == "2d":
+            self.set_u_repr("4d")
+
+        super().anti_symmetrize_two_body_elements()
+
     def change_module(self, np):
         if self.sparse_repr:
 
-- 
2.43.0


From 5ffa8b7bc3c69a37f11a9395bfa01305eea335c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:13 +0000
Subject: [PATCH 12/15] fix: particle density of real orbitals with a complex
 density matrix

---
 quantum_systems/system_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantum_systems/system_helper.py b/quantum_systems/system_helper.py
index 62f0637..f320668 100644
--- a/quantum_systems/system_helper.py
+++ b/quantum_systems/system_helper.py
@@ -15,7 +15,7 @@ def compute_particle_density(rho_qp, ket_spf, bra_spf, np):
     assert bra_spf.shape == ket_spf.shape
     assert bra_spf.dtype == ket_spf.dtype
 
-    rho = np.zeros(ket_spf.shape[1:], dtype=ket_spf.dtype)
+    rho = np.zeros(ket_spf.shape[1:], dtype=np.result_type(ket_spf, rho_qp))
 
     for p in range(bra_spf.shape[0]):
         phi_tilde_p = bra_spf[p]
-- 
2.43.0


From 6ba95397624da63e1916d34958f606e6d2971316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:13 +0000
Subject: [PATCH 13/15] fix: an interrupted or concurrent write of the Coulomb
 cache left a truncated file that every later run failed to load

---
 quantum_systems/quantum_dots/two_dim/two_dim_helper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
index e5d7956..91a634b 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
@@ -242,8 +242,11 @@ def get_coulomb_elements(num_orbitals, verbose=False):
         print(f"Time spent setting up Coulomb elements {t_1 - t_0} sec")
         print(f"Caching Coulomb elements to {filename}")
 
-    # Store elements
-    np.save(filename, coulomb_elements)
+    # Store elements. The file appears under its final name only once it is
+    # complete, as another process might read it or this one be interrupted.
+    tmp_filename = f"{filename}.{os.getpid()}.npy"
+    np.save(tmp_filename, coulomb_elements)
+    os.replace(tmp_filename, filename)
 
     # Return newly created Coulomb elements
     return coulomb_elements
-- 
2.43.0


From 92bd05dd1a641401e724e2df52412fb33a2cf34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:02 +0000
Subject: [PATCH 14/15] fix: Fock matrix of real one-body and complex two-body
 elements raised UFuncTypeError

---
 quantum_systems/general_orbital_system.py | 2 +-
 quantum_systems/spatial_orbital_system.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/general_orbital_system.py b/quantum_systems/general_orbital_system.py
index 971c65e..40b5aa6 100644
--- a/quantum_systems/general_orbital_system.py
+++ b/quantum_systems/general_orbital_system.py
@@ -128,7 +128,7 @@ class GeneralOrbitalSystem(QuantumSystem):
         o, v = (self.o, self.v)
 
         if f is None:
-            f = np.zeros_like(h)
+            f = np.zeros(h.shape, dtype=np.result_type(h, u))
 
         f.fill(0)
 
diff --git a/quantum_systems/spatial_orbital_system.py b/quantum_systems/spatial_orbital_system.py
index 690a74e..b8cc9ba 100644
--- a/quantum_systems/spatial_orbital_system.py
+++ b/quantum_systems/spatial_orbital_system.py
@@ -160,7 +160,7 @@ class SpatialOrbitalSystem(QuantumSystem):
         o, v = (self.o, self.v)
 
         if f is None:
-            f = np.zeros_like(h)
+            f = np.zeros(h.shape, dtype=np.result_type(h, u))
 
         f.fill(0)
 
-- 
2.43.0


From 0ec29356288548f9b5b690d0856795053ba89d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:46 +0000
Subject: [PATCH 15/15] fix: dual orbitals derived from the orbitals were kept
 when the orbitals were replaced

---
 quantum_systems/basis_set.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index 9ac86ab..6d5965f 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -225,7 +225,8 @@ class BasisSet:
     def bra_spf(self):
         if self._bra_spf is None and self._spf is not None:
             # Return complex conjugate in case of a Hermitian basis set.
-            self._bra_spf = self._spf.conj()
+            # The conjugate is not stored as the orbitals might be replaced.
+            return self._spf.conj()
 
         return self._bra_spf
 
@@ -264,7 +265,7 @@ class BasisSet:
             ("_s", self.s),
             ("_u", self.u),
             ("_spf", self.spf),
-            ("_bra_spf", self.bra_spf),
+            ("_bra_spf", self._bra_spf),
             ("_dipole_moment", self.dipole_moment),
             ("_spin_x", self.spin_x),
             ("_spin_y", self.spin_y),
@@ -285,7 +286,7 @@ class BasisSet:
             ("_s", self.s),
             ("_u", self.u),
             ("_spf", self.spf),
-            ("_bra_spf", self.bra_spf),
+            ("_bra_spf", self._bra_spf),
             ("_dipole_moment", self.dipole_moment),
             ("_spin_x", self.spin_x),
             ("_spin_y", self.spin_y),
-- 
2.43.0

