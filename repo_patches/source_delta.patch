From 9707af6ae0e11164856bc445bd2d60454e94dfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:07 +0000
Subject: [PATCH 01/55] fix: switching double counting off crashed on a bond
 without its mirror

---
 src/magnopy/spinham/hamiltonian.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 29df8ca..007afd5 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -352,9 +352,7 @@ class SpinHamiltonian(Crystal):
             else:
                 # If mirrored bond is not in the model, then remember it for addition
                 if (atom2, atom1, (-i, -j, -k)) not in self:
-                    bonds_to_add.append(
-                        atom2, atom1, (-i, -j, -k), parameter=parameter.T
-                    )
+                    bonds_to_add.append((atom2, atom1, (-i, -j, -k), parameter.T))
                 # Remember the bond for removal
                 bonds_to_remove.append((atom1, atom2, (i, j, k)))
 
-- 
2.43.0


From 37bd180413729562e91ccaafb4b8ad54b4a99bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:07 +0000
Subject: [PATCH 02/55] fix: rewriting a bond under double counting left the
 old mirrored bond

---
 src/magnopy/spinham/hamiltonian.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 007afd5..128ac31 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -712,10 +712,8 @@ class SpinHamiltonian(Crystal):
         # Check for double counting
         try:
             i, j, k = ijk
-            if (
-                self.double_counting
-                and (atom2, atom1, (-i, -j, -k)) not in self._exchange
-            ):
+            mirrored = (atom2, atom1, (-i, -j, -k))
+            if self.double_counting and mirrored != (atom1, atom2, (i, j, k)):
                 self._exchange[(atom2, atom1, (-i, -j, -k))] = parameter.T
         # If it fails, then we do not need to add a mirrored bond, since the notation
         # is not defined yet and it is not clear wether the mirrored bond has to
-- 
2.43.0


From 6d47c098611f493e6bc4bbc5e86a38058a5f8cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:40 +0000
Subject: [PATCH 03/55] fix: change of notation rescaled a parameter shared by
 several bonds more than once

---
 src/magnopy/spinham/hamiltonian.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 128ac31..9ef3fdd 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -379,8 +379,8 @@ class SpinHamiltonian(Crystal):
                 factor = 0.5
             # Scale exchange parameters
             if factor != 1:
-                for atom1, atom2, ijk in self._exchange:
-                    self[atom1, atom2, ijk].matrix *= factor
+                for bond in self._exchange:
+                    self._exchange[bond] = self._exchange[bond] * factor
 
         # Add missed mirror bonds if necessary
         if new_value:
@@ -426,19 +426,21 @@ class SpinHamiltonian(Crystal):
             # Remove the spin out of parameters
             if self._spin_normalized and not new_value:
                 # For exchange
-                for atom1, atom2, ijk in self._exchange:
-                    self[atom1, atom2, ijk].matrix /= atom1.spin * atom2.spin
+                for bond in self._exchange:
+                    factor = bond[0].spin * bond[1].spin
+                    self._exchange[bond] = self._exchange[bond] / factor
                 # For on-site
                 for atom in self._on_site:
-                    self[atom].matrix /= atom.spin**2
+                    self._on_site[atom] = self._on_site[atom] / atom.spin**2
             # Absorb spin in the parameters
             elif not self._spin_normalized and new_value:
                 # For exchange
-                for atom1, atom2, ijk in self._exchange:
-                    self[atom1, atom2, ijk].matrix *= atom1.spin * atom2.spin
+                for bond in self._exchange:
+                    factor = bond[0].spin * bond[1].spin
+                    self._exchange[bond] = self._exchange[bond] * factor
                 # For on-site
                 for atom in self._on_site:
-                    self[atom].matrix *= atom.spin**2
+                    self._on_site[atom] = self._on_site[atom] * atom.spin**2
 
         self._spin_normalized = bool(new_value)
 
@@ -478,8 +480,9 @@ class SpinHamiltonian(Crystal):
         # If factor is changing one need to scale parameters.
         if self._exchange_factor is not None and self._exchange_factor != new_factor:
             # Only exchange parameters have to be scaled
-            for atom1, atom2, ijk in self._exchange:
-                self[atom1, atom2, ijk].matrix *= self._exchange_factor / new_factor
+            factor = self._exchange_factor / new_factor
+            for bond in self._exchange:
+                self._exchange[bond] = self._exchange[bond] * factor
 
         self._exchange_factor = new_factor
 
@@ -519,8 +522,9 @@ class SpinHamiltonian(Crystal):
         # If factor is changing one need to scale parameters.
         if self._on_site_factor is not None and self._on_site_factor != new_factor:
             # Only on-site parameters have to be scaled
+            factor = self._on_site_factor / new_factor
             for atom in self._on_site:
-                self[atom].matrix *= self._on_site_factor / new_factor
+                self._on_site[atom] = self._on_site[atom] * factor
 
         self._on_site_factor = new_factor
 
-- 
2.43.0


From c96fd7f557cd1fff5e69f81968ff903d932c1c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:40 +0000
Subject: [PATCH 04/55] fix: remove_atom failed for the Hamiltonian with double
 counting

---
 src/magnopy/spinham/hamiltonian.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 9ef3fdd..f7696ee 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -952,9 +952,11 @@ class SpinHamiltonian(Crystal):
         # No need to check for double counting explicitly
         # Both bonds -- ones that start and ones that end in atom -- are removed
         for parameter in parameters_for_removal:
-            # Parameter has different type (tuple or atom) but the same syntax
-            # works for both, see __delitem__ for details
-            del self[parameter]
+            if isinstance(parameter, Atom):
+                self.remove_on_site(parameter)
+            else:
+                # Mirrored bond might be already removed, if there is double counting
+                self.remove_exchange(*parameter, raise_if_no_bond=False)
 
         # Remove an atom from the crystal
         super().remove_atom(atom)
-- 
2.43.0


From 853b63b1249252e552ff84a443418310789a5ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:40 +0000
Subject: [PATCH 05/55] fix: remove_on_site failed if an atom is given by its
 name

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index f7696ee..48434b5 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -816,7 +816,7 @@ class SpinHamiltonian(Crystal):
 
         # If atom is a string, get the atom object
         if isinstance(atom, str):
-            atom1 = self.get_atom(atom)
+            atom = self.get_atom(atom)
 
         try:
             del self._on_site[atom]
-- 
2.43.0


From 78b408bd1d6834976978ab484630b3dd6e0052b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:40 +0000
Subject: [PATCH 06/55] fix: on-site parameters were scaled with the inverse
 factor in exchange_like

---
 src/magnopy/spinham/hamiltonian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 48434b5..e407865 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -122,7 +122,7 @@ class SpinHamiltonian(Crystal):
         * On-site parameters: ``atom, atom, (0,0,0), parameter``
 
         On-site parameters are scaled with the factor
-        :py:attr:`.exchange_factor`/:py:attr:`.on_site_factor`
+        :py:attr:`.on_site_factor`/:py:attr:`.exchange_factor`
 
         It is an iterator.
         """
@@ -1052,7 +1052,7 @@ class _SpinHamiltonianExchangeLikeIterator:
         self.iterator2 = spinham._exchange.__iter__()
         self.index1 = 0
         self.index2 = 0
-        self.scale_factor = spinham.exchange_factor / spinham.on_site_factor
+        self.scale_factor = spinham.on_site_factor / spinham.exchange_factor
 
     def __next__(self) -> Tuple[Atom, Atom, tuple, MatrixParameter]:
         # First return all on-site terms
-- 
2.43.0


From d4a30aeaeffcfc7d5d18fd3968494d4a4710d0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:40 +0000
Subject: [PATCH 07/55] fix: crystal of the Hamiltonian shared its atoms with
 the Hamiltonian

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index e407865..b7c7c2f 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -979,7 +979,7 @@ class SpinHamiltonian(Crystal):
         --------
         Crystal
         """
-        return Crystal(self.lattice, self.atoms)
+        return Crystal(self.lattice, deepcopy(self.atoms))
 
 
 class _SpinHamiltonianExchangeIterator:
-- 
2.43.0


From 3998b3ca4190c9e7532d36b92b543e40175e034b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:40 +0000
Subject: [PATCH 08/55] fix: wrong atom in the error message of remove_exchange

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index b7c7c2f..5d209ea 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -754,7 +754,7 @@ class SpinHamiltonian(Crystal):
         except KeyError:
             if raise_if_no_bond:
                 raise KeyError(
-                    f"Bond ({atom2.fullname}, {atom2.fullname}, {ijk}) "
+                    f"Bond ({atom1.fullname}, {atom2.fullname}, {ijk}) "
                     + "is not present in the Hamiltonian."
                 )
 
-- 
2.43.0


From b2dbfac4dfb1893e9ed613c5df2410c948d7b04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:00 +0000
Subject: [PATCH 09/55] fix: Energy depended on the notation of the Hamiltonian
 and changed it

---
 src/magnopy/spinham/energy.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 8141c8c..8ab9d80 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -547,6 +547,15 @@ class Energy:
     """
 
     def __init__(self, spinham: SpinHamiltonian):
+        # Notation of the Hamiltonian has to be defined (NotationError otherwise)
+        spinham.double_counting, spinham.spin_normalized
+        # Work with a copy, so the given instance is not changed and its later changes
+        # do not affect the energy
+        spinham = spinham.copy()
+        # Energy is computed as a double sum over the spin vectors of the length S_i
+        spinham.double_counting = True
+        spinham.spin_normalized = False
+
         # Parameters of the Hamiltonian, private
         self._factor = spinham.exchange_factor
         self._atom_indices = dict(
@@ -557,10 +566,6 @@ class Energy:
         self._g_factors = [atom.g_factor for atom in spinham.magnetic_atoms]
         self._spins = [atom.spin for atom in spinham.magnetic_atoms]
 
-        # Force double counting notation
-        previous_dc = spinham.double_counting
-        spinham.double_counting = True
-
         # Get all bonds of the Hamiltonian.
         self._bonds = []
         for atom1, atom2, R, J in spinham.exchange_like:
@@ -569,9 +574,6 @@ class Energy:
             d = R @ spinham.cell
             self._bonds.append([i, j, d, J])
 
-        # Return original noatation of SpinHamiltonian
-        spinham.double_counting = previous_dc
-
         # Minimisation settings, exposed to public as properties
         self._m = 10
 
-- 
2.43.0


From 11f2b62099956b93c209614fc0acdbc06acd8cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:00 +0000
Subject: [PATCH 10/55] fix: exchange_like required on-site factor for the
 Hamiltonian with no on-site terms

---
 src/magnopy/spinham/hamiltonian.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 5d209ea..8c03e69 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -1052,7 +1052,10 @@ class _SpinHamiltonianExchangeLikeIterator:
         self.iterator2 = spinham._exchange.__iter__()
         self.index1 = 0
         self.index2 = 0
-        self.scale_factor = spinham.on_site_factor / spinham.exchange_factor
+        # Scale factor is needed only if there is something to scale
+        self.scale_factor = 1
+        if self.length1 > 0:
+            self.scale_factor = spinham.on_site_factor / spinham.exchange_factor
 
     def __next__(self) -> Tuple[Atom, Atom, tuple, MatrixParameter]:
         # First return all on-site terms
-- 
2.43.0


From b2721dd39ffce2a0c4befc6f70b5e83cd9f706ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:00 +0000
Subject: [PATCH 11/55] fix: Zeeman energy missed the spin values and used
 wrong projection on the cone axis

---
 src/magnopy/spinham/energy.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 8ab9d80..f10e2a4 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1086,7 +1086,11 @@ class Energy:
         # Compute zeeman energy
         if self.magnetic_field is not None:
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, spin_orientation
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                spin_orientation,
             )
 
         return energy
@@ -1200,11 +1204,13 @@ class Energy:
 
         # Compute zeeman energy
         if self.magnetic_field is not None:
-            so_prime = np.einsum(
-                "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
-            )
+            so_prime = np.einsum("jk,ik ->ij", IK_sq, spin_orientation)
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, so_prime
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                so_prime,
             )
 
         return energy
@@ -1321,11 +1327,13 @@ class Energy:
 
         # Compute zeeman energy
         if self.magnetic_field is not None:
-            so_prime = np.einsum(
-                "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
-            )
+            so_prime = np.einsum("jk,ik ->ij", IK_sq, spin_orientation)
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, so_prime
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                so_prime,
             )
 
         return energy
-- 
2.43.0


From 5fe86d3bb029aa29c8406121dc651546ceeadf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:00 +0000
Subject: [PATCH 12/55] fix: wolfe_c2 returned the value of wolfe_c1

---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index f10e2a4..6fa996c 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -675,7 +675,7 @@ class Energy:
         c2 : float
         """
 
-        return self._wolfe_c1
+        return self._wolfe_c2
 
     @wolfe_c2.setter
     def wolfe_c2(self, new_value):
-- 
2.43.0


From 86f60913fc81902ae54d15ac73ab3d6dfaf3a5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:00 +0000
Subject: [PATCH 13/55] fix: setters of g_factors and spins always failed

---
 src/magnopy/spinham/energy.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 6fa996c..cc6edaa 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -740,9 +740,11 @@ class Energy:
 
     @g_factors.setter
     def g_factors(self, new_value):
-        if not isinstance(Iterable):
+        if not isinstance(new_value, Iterable):
             raise ValueError(f"New g factors must be an Iterable: {new_value}")
 
+        new_value = list(new_value)
+
         if not len(new_value) == len(self._spins):
             raise ValueError(
                 f"Expecten {len(self._spins)} g factors, got {len(new_value)}"
@@ -750,11 +752,11 @@ class Energy:
 
         for i, g_factor in enumerate(new_value):
             try:
-                new_value[i] = int(g_factor)
+                new_value[i] = float(g_factor)
             except:
                 raise ValueError(
                     f"One of the new g_factors (index {i}) is not "
-                    f"an integer:{g_factor}."
+                    f"a float:{g_factor}."
                 )
         self._g_factors = new_value
 
@@ -772,18 +774,20 @@ class Energy:
 
     @spins.setter
     def spins(self, new_value):
-        if not isinstance(Iterable):
+        if not isinstance(new_value, Iterable):
             raise ValueError(f"New spins must be an Iterable: {new_value}")
 
+        new_value = list(new_value)
+
         if not len(new_value) == len(self._spins):
             raise ValueError(f"Expected {len(self._spins)} spins, got {len(new_value)}")
 
         for i, spin in enumerate(new_value):
             try:
-                new_value[i] = int(spin)
+                new_value[i] = float(spin)
             except:
                 raise ValueError(
-                    f"One of the new spins (index {i}) is not " f"an integer:{spin}."
+                    f"One of the new spins (index {i}) is not " f"a float:{spin}."
                 )
         self._spins = new_value
 
-- 
2.43.0


From a364d82efafda35808e07a37b1e092364b35a00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 14/55] fix: torque of the cone axis overwrote the one of the
 last spin in the antiferro case

---
 src/magnopy/spinham/energy.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index cc6edaa..5e71ff5 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -235,16 +235,16 @@ def _update_x_antiferro(x, search_direction, step=1):
             * 0 - I-1:  Orientation of the spin vectors
             * I: cone axis
         Second element: spiral vector
-    search_direction : (I*3+6,) :numpy:`ndarray`
+    search_direction : (I*3+3,) :numpy:`ndarray`
         Search direction computed in L-BFGS step
     step : float
         Size of the step along the search direction.
     """
     x_0 = x[0].copy()
     x_1 = x[1]
-    a12 = search_direction[:-3:3] * step
-    a13 = search_direction[1:-3:3] * step
-    a23 = search_direction[2:-3:3] * step
+    a12 = search_direction[::3] * step
+    a13 = search_direction[1::3] * step
+    a23 = search_direction[2::3] * step
 
     thetas = np.sqrt(a12**2 + a13**2 + a23**2)
 
@@ -914,9 +914,9 @@ class Energy:
         t = np.cross(cone_axis, gradient)
         for j in range(0, 3):
             torques[-1][j] = t[j]
-        gradient_vector[-6] = t[2]
-        gradient_vector[-5] = -t[1]
-        gradient_vector[-4] = t[0]
+        gradient_vector[-3] = t[2]
+        gradient_vector[-2] = -t[1]
+        gradient_vector[-1] = t[0]
 
         if return_results:
             return gradient_vector, torques
-- 
2.43.0


From 3d7d0eb21225f881bd0fa1c24808f9805132cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 15/55] fix: spiral vector was updated in the direction of the
 energy increase

---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 5e71ff5..05f0ba5 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -305,7 +305,7 @@ def _update_x_spiral(x, search_direction, step=1):
             + (1 - np.cos(theta)) * r * (r @ x_0[i])
         )
 
-    x_1 += search_direction[-3:] * step
+    x_1 -= search_direction[-3:] * step
 
     return [x_0, x_1]
 
-- 
2.43.0


From 309bbfe2b2fcf78701145dcbbe32106e72b85a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 16/55] fix: wrong sign and skipped first loop of the L-BFGS
 update

---
 src/magnopy/spinham/energy.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 05f0ba5..733636d 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1703,13 +1703,14 @@ class Energy:
             self._y_vec = np.zeros((self._m, self._gradient_size), dtype=float)
             self._rho = np.zeros((self._m), dtype=float)
             self._gamma = np.zeros((self._m), dtype=float)
-            search_direction = gradient_vector
+            search_direction = gradient_vector.copy()
         else:
-            self._d_vec[n] = previous_lambda * previous_search_direction
+            # Coordinates are changed along the direction opposite to search_direction
+            self._d_vec[n] = -previous_lambda * previous_search_direction
             self._y_vec[n] = gradient_vector - previous_gradient_vector
-            self._rho[n] = 1 / (self._d_vec[n] @ self._y_vec[n])
+            curvature = self._d_vec[n] @ self._y_vec[n]
 
-            if self._rho[n] < 0:
+            if curvature <= 0:
                 return (
                     0,
                     self._compute_search_direction(0, gradient_vector=gradient_vector)[
@@ -1717,13 +1718,15 @@ class Energy:
                     ],
                 )
 
+            self._rho[n] = 1 / curvature
+
             q = gradient_vector.copy()
 
-            for l in range(self._m - 1, -1):
+            for l in range(self._m - 1, -1, -1):
                 j = (l + n + 1) % self._m
                 self._gamma[j] = self._rho[j] * (self._d_vec[j] @ q)
                 q = q - self._gamma[j] * self._y_vec[j]
-            search_direction = q / self._rho[n] / (np.linalg.norm(self._y_vec[n]))
+            search_direction = q * curvature / (self._y_vec[n] @ self._y_vec[n])
             for l in range(0, self._m):
                 if k < self._m:
                     j = l
-- 
2.43.0


From 3025f99e310e3d0e5dca5ac89447ed822a6e9367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:48 +0000
Subject: [PATCH 17/55] fix: line search accepted increase of energy and failed
 if the initial step was too short

---
 src/magnopy/spinham/energy.py | 63 +++++++++++++++--------------------
 1 file changed, 26 insertions(+), 37 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 733636d..9f095c0 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1746,42 +1746,31 @@ class Energy:
         Compute the step length across given search direction. Universal and does not
         depend on the choice of the ground state type.
         """
-        step = 1
+        step = 1.0
+        # Interval with the acceptable step
+        step_min, step_max = 0.0, None
         fx = energy(*_unpack(x))
-        x_new = _update(x, search_direction, step)
-        nabla_new = _grad(*_unpack(x_new))[0]
-        nabla = _grad(*_unpack(x))[0]
-        i = 0
-        tmp = [[], [], []]
-        while energy(*_unpack(x_new)) > fx + (
-            self._wolfe_c1 * step * nabla.T @ search_direction
-        ) or abs(nabla_new.T @ search_direction) > abs(
-            self._wolfe_c2 * nabla.T @ search_direction
-        ):
-            step *= 0.99
+        # Note: coordinates are changed along the direction opposite to search_direction
+        slope = _grad(*_unpack(x))[0] @ search_direction
+        for _ in range(self._wolfe_iter_max):
             x_new = _update(x, search_direction, step)
-            nabla_new = _grad(*_unpack(x_new))[0]
-            # print(
-            #     energy(*_unpack(x_new)),
-            #     fx,
-            #     fx + self._wolfe_c1 * step * nabla.T @ search_direction,
-            #     abs(nabla_new.T @ search_direction),
-            #     abs(self._wolfe_c2 * nabla.T @ search_direction),
-            # )
-            tmp[0].append(step)
-            tmp[1].append(energy(*_unpack(x_new)))
-            tmp[2].append(fx + step * self._wolfe_c1 * nabla.T @ search_direction)
-            if i > self._wolfe_iter_max:
-                print("\n\n")
-                # TODO go into the details and deal with the failing cases
-                import matplotlib.pyplot as plt
-
-                fig, ax = plt.subplots()
-                ax.plot(tmp[0], tmp[1], lw=1, color="black")
-                ax.plot(tmp[0], tmp[2], lw=1, color="tab:red")
-                plt.savefig("tmp.png", dpi=300, bbox_inches="tight")
-                plt.close()
-                # return 1
-                raise ValueError("Wolfe failed")
-            i += 1
-        return step
+            # Step is too long
+            if energy(*_unpack(x_new)) > fx - self._wolfe_c1 * step * slope:
+                step_max = step
+            # Step is too short
+            elif _grad(*_unpack(x_new))[0] @ search_direction > self._wolfe_c2 * slope:
+                step_min = step
+            else:
+                return step
+
+            if step_max is None:
+                step = 2 * step_min
+            # Interval is below the numerical accuracy
+            elif step_max - step_min <= np.finfo(float).eps * step_max:
+                if step_min == 0:
+                    break
+                return step_min
+            else:
+                step = (step_min + step_max) / 2
+
+        raise ValueError("Wolfe failed")
-- 
2.43.0


From 373b76ac10e0d0876deeda0c1d6cfa563da2aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:48 +0000
Subject: [PATCH 18/55] fix: history of the minimization was lost if the
 maximum of iterations is reached

---
 src/magnopy/spinham/energy.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 9f095c0..8ea777c 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -417,7 +417,7 @@ def _default_history_processor_ferro(history, filename=None, nspins=None):
     if history is None:
         if nspins is None:
             _logger.error("If history is None, then nspins is required.")
-            raise RunTimeError("If history is None, then nspins is required.")
+            raise RuntimeError("If history is None, then nspins is required.")
         header = f"{'Energy':>15} {'Torque':>11}"
 
         for i in range(nspins):
@@ -447,7 +447,7 @@ def _default_history_processor_antiferro(history, filename=None, nspins=None):
     if history is None:
         if nspins is None:
             _logger.error("If history is None, then nspins is required.")
-            raise RunTimeError("If history is None, then nspins is required.")
+            raise RuntimeError("If history is None, then nspins is required.")
         header = f"{'Energy':>15} {'Torque':>11} {'Torque_n':>11}"
 
         for i in range(nspins):
@@ -487,7 +487,7 @@ def _default_history_processor_spiral(history, filename=None, nspins=None):
     if history is None:
         if nspins is None:
             _logger.error("If history is None, then nspins is required.")
-            raise RunTimeError("If history is None, then nspins is required.")
+            raise RuntimeError("If history is None, then nspins is required.")
         header = f"{'Energy':>15} {'Torque':>11} {'Torque_n':>11}"
 
         for i in range(nspins):
@@ -1579,6 +1579,9 @@ class Energy:
                     f"Torques: {torque_targets}, "
                     f"Energy difference: {energy_diff:.5e}."
                 )
+                # Output remaining part of history
+                if save_history and len(history) > 0:
+                    history_processor(history, filename=history_filename)
                 return _unpack(x)
 
             # Compute gradient and torques
@@ -1640,7 +1643,7 @@ class Energy:
                     history = []
 
         # Output remaining part of history
-        if save_history:
+        if save_history and len(history) > 0:
             history_processor(history, filename=history_filename)
 
         # Return minimized configuration
-- 
2.43.0


From bb054a4cfab5c323960a2e5d062aefbe50806d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:49 +0000
Subject: [PATCH 19/55] fix: Colpa transformation was not para-unitary for
 degenerate eigenvalues

---
 src/magnopy/magnons/diagonalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/diagonalization.py b/src/magnopy/magnons/diagonalization.py
index 5d16eff..1e49311 100644
--- a/src/magnopy/magnons/diagonalization.py
+++ b/src/magnopy/magnons/diagonalization.py
@@ -129,7 +129,7 @@ def solve_via_colpa(D):
     except LinAlgError:
         raise ColpaFailed
 
-    L, U = np.linalg.eig(K @ g @ np.conjugate(K).T)
+    L, U = np.linalg.eigh(K @ g @ np.conjugate(K).T)
 
     # Sort with respect to L, in descending order
     U = np.concatenate((L[:, None], U.T), axis=1).T
-- 
2.43.0


From 1b1fd5c472355d787e10c5873bc4dec71100aa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:55 +0000
Subject: [PATCH 20/55] fix: units of exchange parameters were ignored in .txt
 files

---
 src/magnopy/io/txt/internal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 325cd5a..6b1f77f 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -654,7 +654,7 @@ def _read_exchange(lines, spinham):
             + f"Will be converted to {ENERGY_NAME}.",
         )
     elif units.startswith("j"):
-        units_conversion = 1 / ENERGY_UNITS
+        units_conversion = 1 / ENERGY
         _logger.info(
             "Exchange parameters are provided in Joule. "
             + f" Will be converted to {ENERGY_NAME}.",
@@ -761,10 +761,12 @@ def _read_bond(lines, spinham: SpinHamiltonian, units_conversion=1):
             for j in range(3):
                 i += 1
                 matrix[j] = [float(x) for x in lines[i].split()]
-        spinham.add_exchange(
-            name1, name2, R, matrix=matrix, iso=iso, aniso=symm, dmi=dmi
-        )
         i += 1
+
+    # Convert units once all parts of the parameter are read
+    parameter = MatrixParameter(matrix=matrix, iso=iso, aniso=symm, dmi=dmi)
+    spinham.add_exchange(name1, name2, R, parameter * units_conversion)
+
     return spinham
 
 
-- 
2.43.0


From 191ba587d1bb9e0750e593df50d5fc688cdf3fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:55 +0000
Subject: [PATCH 21/55] fix: spiral vector from .txt files was not relative to
 the reciprocal cell

---
 src/magnopy/io/txt/internal.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 6b1f77f..31c6c91 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -958,7 +958,7 @@ def _read_cone_axis(lines, spinham: SpinHamiltonian):
     return spinham
 
 
-def _read_spiral_vector(lines, spinham: SpinHamiltonian):
+def _read_spiral_vector(lines, spinham: SpinHamiltonian, units_conversion=1):
     R"""
     Read information from the spiral-vector section as described in the documentation.
 
@@ -982,6 +982,9 @@ def _read_spiral_vector(lines, spinham: SpinHamiltonian):
         Parameters section of the input file.
     spinham : :py:class:`.SpinHamiltonian`
         Spin Hamiltonian, where the data are saved.
+    units_conversion : float, default 1
+        Conversion factor from the units of the lattice vectors in the input file to the
+        internal units of length. Used only for the absolute coordinates.
 
     Returns
     -------
@@ -1018,8 +1021,9 @@ def _read_spiral_vector(lines, spinham: SpinHamiltonian):
 
     q = [float(x) for x in lines[1].split()]
 
-    if relative:
-        q = q @ spinham.reciprocal_cell
+    if not relative:
+        q = np.array(q, dtype=float) / units_conversion
+        q = absolute_to_relative(q, spinham.reciprocal_cell)
 
     spinham.spiral_vector = q
 
@@ -1157,6 +1161,15 @@ def load_spinham_txt(filename, save_filtered=False, verbose=False) -> SpinHamilt
 
     # If present read spiral-vector
     if "spiral-vector" in sections:
-        _read_spiral_vector(lines[slice(*sections["spiral-vector"])], spinham)
+        # Absolute coordinates are given in the (inverse) units of the lattice vectors
+        units_conversion = ANGSTROM / LENGTH
+        cell_header = lines[sections["cell"][0]].lower().split()
+        if len(cell_header) == 2 and cell_header[1].startswith("b"):
+            units_conversion = BOHR_RADIUS / LENGTH
+        _read_spiral_vector(
+            lines[slice(*sections["spiral-vector"])],
+            spinham,
+            units_conversion=units_conversion,
+        )
 
     return spinham
-- 
2.43.0


From 9e5687ee556dc53abf3e8680cc5b232328904ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:55 +0000
Subject: [PATCH 22/55] fix: "-" symbol for the missing data of an atom was not
 supported

---
 src/magnopy/io/txt/internal.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 31c6c91..87726a9 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -509,26 +509,29 @@ def _read_atoms(lines, spinham: SpinHamiltonian, scale):
                 * units_conversion
             )
 
+        # Data that are skipped with "-" are treated as if they are not present
+        skipped = [key for key, value in zip(data_header, line) if value == "-"]
+
         # Find charge
-        if "q" in data_header:
+        if "q" in data_header and "q" not in skipped:
             charge = float(line[data_header.index("q")])
         else:
             charge = 0
 
         # Find g factor
-        if "g" in data_header:
+        if "g" in data_header and "g" not in skipped:
             g = float(line[data_header.index("g")])
         else:
             g = 2.0
 
         # Find spin
-        if "sx" in data_header:
+        if "sx" in data_header and not {"sx", "sy", "sz"} & set(skipped):
             spin = (
                 float(line[data_header.index("sx")]),
                 float(line[data_header.index("sy")]),
                 float(line[data_header.index("sz")]),
             )
-        elif "sp" in data_header:
+        elif "sp" in data_header and not {"sp", "st", "s"} & set(skipped):
             phi = float(line[data_header.index("sp")])
             theta = float(line[data_header.index("st")])
             s = float(line[data_header.index("s")])
@@ -537,7 +540,7 @@ def _read_atoms(lines, spinham: SpinHamiltonian, scale):
                 s * np.sin(theta * TORADIANS) * np.sin(phi * TORADIANS),
                 s * np.cos(theta * TORADIANS),
             ]
-        elif "s" in data_header:
+        elif "s" in data_header and "s" not in skipped:
             spin = (
                 0,
                 0,
-- 
2.43.0


From 9afbb7995bb64cd7841fa7b5bd6d07952c3d07bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:55 +0000
Subject: [PATCH 23/55] fix: conversion of a vector to angles failed and lost
 the sign of azimuthal angle

---
 src/magnopy/geometry.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/magnopy/geometry.py b/src/magnopy/geometry.py
index d162c81..17c8331 100644
--- a/src/magnopy/geometry.py
+++ b/src/magnopy/geometry.py
@@ -40,20 +40,19 @@ def vector_to_angles(vector, in_degrees=True):
         Whether to return angles in degrees or radians.
 
     """
-    modulus = np.linalg.notm(vector)
+    modulus = np.linalg.norm(vector)
 
-    if np.allclose(vector / modulus, [0.0, 0.0, 1.0]):
+    if modulus == 0:
+        polar, azimuthal = 0.0, 0.0
+    elif np.allclose(vector / modulus, [0.0, 0.0, 1.0]):
         polar, azimuthal = 0, np.pi / 2
     elif np.allclose(vector / modulus, [0.0, 0.0, -1.0]):
         polar, azimuthal = np.pi, np.pi / 2
     else:
-        polar = np.arccos(np.dot(vector, [0, 0, 1]) / modulus)
-        xy_projection = np.array([vector[0], vector[1], 0])
-        azimuthal = np.arccos(
-            np.dot(xy_projection, [1, 0, 0]) / np.linalg.norm(xy_projection)
-        )
+        polar = np.arccos(np.clip(vector[2] / modulus, -1, 1))
+        azimuthal = np.arctan2(vector[1], vector[0]) % (2 * np.pi)
 
-    if in_degreees:
+    if in_degrees:
         return modulus, polar * TODEGREES, azimuthal * TODEGREES
     else:
         return modulus, polar, azimuthal
-- 
2.43.0


From b4b99f184064ce0384797438bc2348c644302c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:55 +0000
Subject: [PATCH 24/55] fix: spin angles in .txt files were not readable

---
 src/magnopy/io/txt/internal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 87726a9..f0cc08b 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -212,8 +212,8 @@ def dump_spinham_txt(
                 S, theta, phi = vector_to_angles(atom.spin_vector, in_degrees=True)
                 text[-1] += " " + " ".join(
                     [
-                        f"t{theta:8.4f}",
-                        f"p{phi:8.4f}",
+                        f"{theta:8.4f}",
+                        f"{phi:8.4f}",
                         f"{S:8.4f}",
                     ]
                 )
-- 
2.43.0


From b3b02fbd46fca1c8005d387e3fc2f110469cd0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:55 +0000
Subject: [PATCH 25/55] fix: g-factors and charges of atoms were lost in .txt
 files

---
 src/magnopy/io/txt/internal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index f0cc08b..3419cb9 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -196,6 +196,7 @@ def dump_spinham_txt(
         text[-1] += f" {'St':>6} {'Sp':>6} {'S':>6}"
     else:
         text[-1] += f" {'Sx':>8} {'Sy':>8} {'Sz':>8}"
+    text[-1] += f" {'g':>12} {'q':>12}"
     for atom in spinham.atoms:
         text.append(
             " ".join(
@@ -233,6 +234,11 @@ def dump_spinham_txt(
                     f"{'-':>8}",
                 ]
             )
+        text[-1] += f" {atom.g_factor:12.8f}"
+        try:
+            text[-1] += f" {atom.charge:12.8f}"
+        except ValueError:
+            text[-1] += f" {'-':>12}"
     text.append(SEPARATOR)
 
     # Write notation
-- 
2.43.0


From 54ee239fa746566ab07530fe62f3635b78364f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:55 +0000
Subject: [PATCH 26/55] fix: filtered copy of the input file could not be saved

---
 src/magnopy/io/txt/internal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 3419cb9..f4d71b8 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -17,6 +17,7 @@
 # along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 import logging
+import os
 
 import numpy as np
 from wulfric import TORADIANS, Atom, absolute_to_relative, volume
@@ -1100,7 +1101,8 @@ def _filter_txt_file(filename=None, lines=None, save_filtered=False):
 
     # Save filtered copy of the file
     if save_filtered:
-        filtered_filename = f"filtered_{filename}"
+        head, tail = os.path.split(filename)
+        filtered_filename = os.path.join(head, f"filtered_{tail}")
         with open(filtered_filename, "w", encoding="utf-8") as f:
             f.write("\n".join(filtered_lines))
         _logger.debug(
-- 
2.43.0


From 872a16cb19300fefe1282641b4ec571e1c798bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:55 +0000
Subject: [PATCH 27/55] fix: verification of atoms section failed with
 IndexError for short lines

---
 src/magnopy/io/txt/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 0a6f93b..f55c9de 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -763,7 +763,7 @@ def _verify_atoms(lines, line_indices):
             )
 
         # Check atom's names if any
-        if name_index is not None:
+        if name_index is not None and name_index < len(line):
             errors = errors or _verify_atom_name(line[name_index], line_indices[i])
             allowed_atoms.add(line[name_index])
 
-- 
2.43.0


From c0765b8900a8b05bd8646ca292b687c58d3228b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:55 +0000
Subject: [PATCH 28/55] fix: "Atoms Relative" from the documentation was
 rejected

---
 src/magnopy/io/txt/verify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index f55c9de..287f90f 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -738,7 +738,9 @@ def _verify_atoms(lines, line_indices):
     # Starting from this line it is assumed that the section has at least 3 lines
 
     # Check the section header
-    errors = errors or _verify_section_header(lines[0], line_indices[0], ["a", "b"])
+    errors = errors or _verify_section_header(
+        lines[0], line_indices[0], ["a", "b", "r"]
+    )
 
     # Check the data header
     N, name_index, data_header_errors = _verify_atoms_data_header(
-- 
2.43.0


From 7edc522e19cdaa5d246e4aceb27c595e380feb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:55 +0000
Subject: [PATCH 29/55] fix: missing notation section was not detected by
 verification of .txt files

---
 src/magnopy/io/txt/verify.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 287f90f..56ee588 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -1493,6 +1493,13 @@ def _verify_model_file(lines, line_indices, raise_on_fail=True, return_sections=
             errors = True
             _logger.error(f'File: failed to find required section "{r_section}"')
 
+    # Notation is required if there are any parameters
+    if (
+        "exchange" in found_sections or "on-site" in found_sections
+    ) and "notation" not in found_sections:
+        errors = True
+        _logger.error('File: failed to find section "notation"')
+
     # Verify atoms section in advance, since we need to know a set of allowed atoms.
     if "atoms" in found_sections:
         allowed_atoms, atoms_errors = _verify_atoms(
-- 
2.43.0


From 2882625d0d7cf76ecb4ef155395caae1d8558189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:37 +0000
Subject: [PATCH 30/55] fix: order of atoms and parameters was changed by .hdf5
 files with ten or more entries

---
 src/magnopy/io/hdf5/internal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index c462a88..91177d6 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -129,7 +129,8 @@ def load_spinham_hdf5(
 
     # Read the atoms
     atoms = root_group["atoms"]
-    for index in atoms:
+    # Alphabetical order of the groups is not the order of atoms
+    for index in sorted(atoms, key=int):
         atom = atoms[index]
         name = atom["name"][()].decode("utf-8")
         if _verify_atom_name(name, line_index="hdf5 file"):
@@ -211,7 +212,7 @@ def load_spinham_hdf5(
             )
             raise ValueError(f"Unknown units '{exchange.attrs['units']}'.")
 
-        for index in exchange:
+        for index in sorted(exchange, key=int):
             bond = exchange[index]
             atom1 = bond["atom-1"][()].decode("utf-8")
             try:
@@ -251,7 +252,7 @@ def load_spinham_hdf5(
             )
             raise ValueError(f"Unknown units '{on_site.attrs['units']}'.")
 
-        for index in on_site:
+        for index in sorted(on_site, key=int):
             parameters = on_site[index]
             atom = parameters["atom"][()].decode("utf-8")
             try:
-- 
2.43.0


From a40074e20900bbe4d157406ec2c8c56d61feb9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:37 +0000
Subject: [PATCH 31/55] fix: unknown atoms and units of cell in .hdf5 files
 failed with unrelated errors

---
 src/magnopy/io/hdf5/internal.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 91177d6..180bd4f 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -123,7 +123,10 @@ def load_spinham_hdf5(
     elif cell.attrs["units"].lower().startswith("angstrom"):
         units_conversion = ANGSTROM / LENGTH
     else:
-        _logger.error(f"Unknown units '{cell['units']}' for cell in file '{filename}'.")
+        _logger.error(
+            f"Unknown units '{cell.attrs['units']}' for cell in file '{filename}'."
+        )
+        raise ValueError(f"Unknown units '{cell.attrs['units']}'.")
 
     spinham.cell *= units_conversion
 
@@ -219,15 +222,17 @@ def load_spinham_hdf5(
                 atom1 = spinham.get_atom(atom1)
             except ValueError as e:
                 _logger.error(
-                    f'Atom "{atom1}" in exchange bond {index+1} not found in the atoms group in file "{filename}".'
+                    f'Atom "{atom1}" in exchange bond {index} not found in the atoms group in file "{filename}".'
                 )
+                raise e
             atom2 = bond["atom-2"][()].decode("utf-8")
             try:
                 atom2 = spinham.get_atom(atom2)
             except ValueError as e:
                 _logger.error(
-                    f'Atom "{atom2}" in exchange bond {index+1} not found in the atoms group in file "{filename}".'
+                    f'Atom "{atom2}" in exchange bond {index} not found in the atoms group in file "{filename}".'
                 )
+                raise e
             ijk = tuple(bond["ijk"][:])
             matrix = bond["matrix"][:]
             spinham.add_exchange(atom1, atom2, ijk, matrix=matrix * units_conversion)
@@ -259,8 +264,9 @@ def load_spinham_hdf5(
                 atom = spinham.get_atom(atom)
             except ValueError as e:
                 _logger.error(
-                    f'Atom "{atom}" in on-site bond {index+1} not found in the atoms group in file "{filename}".'
+                    f'Atom "{atom}" in on-site bond {index} not found in the atoms group in file "{filename}".'
                 )
+                raise e
             matrix = parameters["matrix"][:]
             spinham.add_on_site(atom, matrix=matrix * units_conversion)
 
-- 
2.43.0


From 81095d37dc4dd0a83fce93a771a6fd136b618939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:37 +0000
Subject: [PATCH 32/55] fix: failed dump to .hdf5 file destroyed the existing
 group

---
 src/magnopy/io/hdf5/internal.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 180bd4f..20d321a 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -335,6 +335,15 @@ def dump_spinham_hdf5(
         existing ``filename``.
     """
 
+    # Raise an error for the undefined notation before the file is changed
+    if len(spinham.exchange) > 0 or len(spinham.on_site) > 0:
+        spinham.spin_normalized
+    if len(spinham.exchange) > 0:
+        spinham.double_counting
+        spinham.exchange_factor
+    if len(spinham.on_site) > 0:
+        spinham.on_site_factor
+
     file = h5py.File(filename, "a")
     try:
         root_group = file.create_group(groupname)
@@ -343,6 +352,7 @@ def dump_spinham_hdf5(
             del file[groupname]
             root_group = file.create_group(groupname)
         else:
+            file.close()
             raise FileExistsError(
                 f"Group {groupname} already exists in file {filename}."
             )
-- 
2.43.0


From d2cfa25e8102d560f9c5fbef78fd5dd5e8eed897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:47 +0000
Subject: [PATCH 33/55] fix: material file of Vampire could not be written

---
 src/magnopy/io/txt/vampire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/vampire.py b/src/magnopy/io/txt/vampire.py
index 6d457ad..7a2b776 100644
--- a/src/magnopy/io/txt/vampire.py
+++ b/src/magnopy/io/txt/vampire.py
@@ -140,7 +140,7 @@ def dump_mat(spinham: SpinHamiltonian, filename=None, materials=None, nologo=Fal
             text.append(f"material[{m_i}]:material-name = {atom.name}")
             text.append(f"material[{m_i}]:material-element = {atom.type}")
             text.append(f"material[{m_i}]:atomic-spin-moment={atom.spin} ! muB")
-            if atom._spin_direction is not None:
+            if atom.spin != 0:
                 text.append(
                     f"material[{m_i}]:initial-spin-direction = {atom.spin_direction[0]:.8f},{atom.spin_direction[1]:.8f},{atom.spin_direction[2]:.8f}"
                 )
-- 
2.43.0


From 8ab1ecf6815699febab78bcb4451ee94b274082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:47 +0000
Subject: [PATCH 34/55] fix: spin was written instead of the magnetic moment in
 the material file of Vampire

---
 src/magnopy/io/txt/vampire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/vampire.py b/src/magnopy/io/txt/vampire.py
index 7a2b776..b305baa 100644
--- a/src/magnopy/io/txt/vampire.py
+++ b/src/magnopy/io/txt/vampire.py
@@ -139,7 +139,7 @@ def dump_mat(spinham: SpinHamiltonian, filename=None, materials=None, nologo=Fal
             text.append("#---------------------------------------------------")
             text.append(f"material[{m_i}]:material-name = {atom.name}")
             text.append(f"material[{m_i}]:material-element = {atom.type}")
-            text.append(f"material[{m_i}]:atomic-spin-moment={atom.spin} ! muB")
+            text.append(f"material[{m_i}]:atomic-spin-moment={abs(atom.g_factor) * atom.spin} ! muB")
             if atom.spin != 0:
                 text.append(
                     f"material[{m_i}]:initial-spin-direction = {atom.spin_direction[0]:.8f},{atom.spin_direction[1]:.8f},{atom.spin_direction[2]:.8f}"
-- 
2.43.0


From 47d0e4cce87c9eceb28f3b97927c3e0c2c660c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:47 +0000
Subject: [PATCH 35/55] fix: export to Vampire changed the Hamiltonian in the
 case of an error and failed with no on-site parameters

---
 src/magnopy/io/txt/vampire.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/txt/vampire.py b/src/magnopy/io/txt/vampire.py
index b305baa..b8941d1 100644
--- a/src/magnopy/io/txt/vampire.py
+++ b/src/magnopy/io/txt/vampire.py
@@ -203,7 +203,16 @@ def dump_ucf(
     """
     if materials is None:
         materials = [i for i in range(len(spinham.magnetic_atoms))]
-    original_notation = spinham.notation
+    # Original Hamiltonian has to remain untouched, even in the case of an error
+    spinham = spinham.copy()
+    # Notation of the missing parameters is irrelevant and might be not defined
+    if len(spinham.on_site) == 0:
+        spinham.on_site_factor = 1
+    if len(spinham.exchange) == 0:
+        spinham.double_counting = True
+        spinham.exchange_factor = 1
+    # Raise an error if the notation is not defined
+    spinham.notation
     spinham.notation = "vampire"
     if nologo:
         text = []
@@ -245,8 +254,6 @@ def dump_ucf(
         )
         IID += 1
 
-    spinham.notation = original_notation
-
     text = "\n".join(text)
 
     if filename is None:
-- 
2.43.0


From 32c07d448976273b3c65311f2fda6a71eb95197a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:02 +0000
Subject: [PATCH 36/55] fix: standardization of the cell did not change the
 bonds of the Hamiltonian

---
 src/magnopy/spinham/hamiltonian.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 8c03e69..c66da96 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -961,6 +961,35 @@ class SpinHamiltonian(Crystal):
         # Remove an atom from the crystal
         super().remove_atom(atom)
 
+    def standardize(self):
+        r"""
+        Standardize cell with respect to the Bravais lattice type.
+
+        Bonds and spiral vector are redefined with respect to the new cell.
+
+        See :ref:`wulfric:api_crystal` for details.
+        """
+
+        # Get S matrix before cell standardization
+        S = self.S_matrix
+
+        super().standardize()
+
+        # Unit cells of the bonds are given in the relative coordinates
+        self._exchange = dict(
+            [
+                (
+                    (atom1, atom2, tuple(int(n) for n in np.rint(S @ ijk))),
+                    parameter,
+                )
+                for (atom1, atom2, ijk), parameter in self._exchange.items()
+            ]
+        )
+
+        # Spiral vector is given in the relative coordinates of the reciprocal cell
+        if self._spiral_vector is not None:
+            self._spiral_vector = np.linalg.inv(S.T) @ self._spiral_vector
+
     @property
     def crystal(self) -> Crystal:
         r"""
-- 
2.43.0


From fd63cbb002c1dc2955ba196f71a6ab1b68a2c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:02 +0000
Subject: [PATCH 37/55] fix: wrong sign of the shift for negative semidefinite
 matrices

---
 src/magnopy/magnons/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/dispersion.py b/src/magnopy/magnons/dispersion.py
index 0bb75ce..1adcf57 100644
--- a/src/magnopy/magnons/dispersion.py
+++ b/src/magnopy/magnons/dispersion.py
@@ -321,7 +321,7 @@ class MagnonDispersion:
                     # Try to solve for negative semidefinite matrix
                     try:
                         omegas, G = solve_via_colpa(
-                            -h - np.diag(1e-8 * np.ones(h.shape[0]))
+                            -h + np.diag(1e-8 * np.ones(h.shape[0]))
                         )
                         omegas *= -1
                         G *= -1
-- 
2.43.0


From fc78c71cca2c8eab977008ca124803a4906a0ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:02 +0000
Subject: [PATCH 38/55] fix: wrong number of energies is returned with the
 transformation matrix if Colpa fails

---
 src/magnopy/magnons/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/dispersion.py b/src/magnopy/magnons/dispersion.py
index 1adcf57..d26bef7 100644
--- a/src/magnopy/magnons/dispersion.py
+++ b/src/magnopy/magnons/dispersion.py
@@ -333,7 +333,7 @@ class MagnonDispersion:
                                 G = np.empty((2 * self.N, 2 * self.N), dtype=float)
 
                         else:
-                            omegas = np.zeros(self.N, dtype=float)
+                            omegas = np.zeros(2 * self.N, dtype=float)
                             if return_G:
                                 G = np.zeros((2 * self.N, 2 * self.N), dtype=float)
         omegas[np.abs(omegas) <= 1e-8] = 0
-- 
2.43.0


From 630f0592297a5b8fd832a6850d8051417e1d6c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:25 +0000
Subject: [PATCH 39/55] fix: index of the history file in the antiferro case
 was overwritten by the index of atom

---
 src/magnopy/score/minimize_energy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index f83c46f..b1acd59 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -76,7 +76,7 @@ def _minimize_antiferro(energy: Energy, spinham, seedname, output_file):
         q = qrel @ spinham.reciprocal_cell / 2
         output_file.write(
             f"History for the q_rel = ({qrel[0]:2.0f}, {qrel[1]:2.0f}, {qrel[2]:2.0f}) "
-            f"is written to the file {history_file}"
+            f"is written to the file {history_file}\n"
         )
 
         spin_orientation, cone_axis, _ = energy.optimize(
@@ -92,10 +92,10 @@ def _minimize_antiferro(energy: Energy, spinham, seedname, output_file):
         output_file.write(
             f"  {'name':>5} {'r1':>11} {'r2':>11} {'r3':>11} {'sx':>11} {'sy':>11} {'sz':>11}\n"
         )
-        for i, spin in enumerate(spin_orientation):
-            pos = spinham.magnetic_atoms[i].position
+        for a_i, spin in enumerate(spin_orientation):
+            pos = spinham.magnetic_atoms[a_i].position
             output_file.write(
-                f"  {spinham.magnetic_atoms[i].name:>5} "
+                f"  {spinham.magnetic_atoms[a_i].name:>5} "
                 f"{pos[0]:11.8f} {pos[1]:11.8f} {pos[2]:11.8f} "
                 f"{spin[0]:11.8f} {spin[1]:11.8f} {spin[2]:11.8f}\n"
             )
-- 
2.43.0


From 27f0a33536f6d7dcf44e685cbd784b541f93b8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:25 +0000
Subject: [PATCH 40/55] fix: summary of the antiferro minimization failed

---
 src/magnopy/score/minimize_energy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index b1acd59..b6d6efa 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -209,8 +209,8 @@ def manager(
             output_file.write(f"Ferromagnetic energy : {energies[i]:.8f}\n")
         if gs_to_minimize[i] == "antiferro":
             output_file.write(f"Antiferromagnetic energies :\n")
-            for i in range(26):
-                output_file.write(f"  {i+1} {energies[i]:.8f}\n")
+            for e_i, energy in enumerate(energies[i]):
+                output_file.write(f"  {e_i+1} {energy:.8f}\n")
         if gs_to_minimize[i] == "spiral":
             output_file.write(f"Spiral energy : {energies[i]:.8f}\n")
 
-- 
2.43.0


From 462b910b067b51d7495636afbac9eb055a73c46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:19 +0000
Subject: [PATCH 41/55] fix: minimization failed with the default value of
 ground state type

---
 src/magnopy/score/minimize_energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index b6d6efa..c7a99c1 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -168,7 +168,7 @@ def manager(
         energy.magnetic_field = magnetic_field
 
     # Decide which ground state types to minimize
-    if "all" in ground_state_type:
+    if ground_state_type is None or "all" in ground_state_type:
         gs_to_minimize = ["ferro", "antiferro", "spiral"]
     else:
         gs_to_minimize = ground_state_type
-- 
2.43.0


From b66a3b68f55098da199856f9a64536ccfc602c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:15 +0000
Subject: [PATCH 42/55] fix: switching double counting off lost bonds between
 atoms with the same index

---
 src/magnopy/spinham/hamiltonian.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index c66da96..59b4863 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -332,6 +332,8 @@ class SpinHamiltonian(Crystal):
         * i = 0 and j > 0
         * i = 0, j = 0 and k > 0
         * i = 0, j = 0, k = 0 and atom1.index <= atom2.index
+
+        If indices of the atoms are the same, then names of the atoms are compared.
         """
 
         bonds_to_remove = []
@@ -343,7 +345,12 @@ class SpinHamiltonian(Crystal):
                 i > 0
                 or (i == 0 and j > 0)
                 or (i == 0 and j == 0 and k > 0)
-                or (i == 0 and j == 0 and k == 0 and atom1.index <= atom2.index)
+                or (
+                    i == 0
+                    and j == 0
+                    and k == 0
+                    and (atom1.index, atom1.name) <= (atom2.index, atom2.name)
+                )
             ):
                 # Remember  mirrored bond  for removal, if it is in the model
                 if (atom2, atom1, (-i, -j, -k)) in self:
-- 
2.43.0


From 8eca267a9ff1c1bb9cdfcef975e6fccf20b8e64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:15 +0000
Subject: [PATCH 43/55] fix: order of magnetic atoms with the same index was
 random

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 59b4863..8096b9d 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -654,7 +654,7 @@ class SpinHamiltonian(Crystal):
         for atom in self._on_site:
             result.add(atom)
 
-        return sorted(list(result), key=lambda x: x.index)
+        return sorted(list(result), key=lambda x: (x.index, x.name))
 
     @property
     def I(self):
-- 
2.43.0


From 1796002235c824fb7b6441626f6cebe71dccabe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:03 +0000
Subject: [PATCH 44/55] fix: documented option --magnetic-field of
 magnopy-minimize-energy was not recognized

---
 src/magnopy/score/minimize_energy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index c7a99c1..a02a5f6 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -244,6 +244,7 @@ def create_parser():
     )
     parser.add_argument(
         "-mf",
+        "--magnetic-field",
         "--magnetic_field",
         default=None,
         type=float,
-- 
2.43.0


From 1104338e641384be18d54f92ce79e1977cbe81a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:38 +0000
Subject: [PATCH 45/55] fix: minimization failed at stationary points due to
 the rounding errors

---
 src/magnopy/spinham/energy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 8ea777c..7962c1f 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1755,6 +1755,9 @@ class Energy:
         fx = energy(*_unpack(x))
         # Note: coordinates are changed along the direction opposite to search_direction
         slope = _grad(*_unpack(x))[0] @ search_direction
+        # Point is stationary within the accuracy of the numerical gradient
+        if abs(slope) < 1e-18:
+            return 0.0
         for _ in range(self._wolfe_iter_max):
             x_new = _update(x, search_direction, step)
             # Step is too long
-- 
2.43.0


From 7e7061172c9c608c8ab6369f882515ae04d58eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:24 +0000
Subject: [PATCH 46/55] fix: convergence of minimization was judged with the
 torques of the previous step

---
 src/magnopy/spinham/energy.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 7962c1f..1784bcb 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1571,6 +1571,9 @@ class Energy:
         if save_history:
             history = [[energy_prev, torque_targets, x]]
 
+        # Compute gradient and torques of the initial guess
+        _grad(*_unpack(x), gradient_vector=gradient_vector, torques=torques)
+
         while condition:
             # Check whether number of iterations is exceeded
             if max_iterations is not None and iteration_counter >= max_iterations:
@@ -1584,9 +1587,6 @@ class Energy:
                     history_processor(history, filename=history_filename)
                 return _unpack(x)
 
-            # Compute gradient and torques
-            _grad(*_unpack(x), gradient_vector=gradient_vector, torques=torques)
-
             # Compute search direction
             k, search_direction = self._compute_search_direction(
                 k,
@@ -1606,9 +1606,16 @@ class Energy:
                 _grad=_grad,
             )
 
+            # Keep values for the next loop
+            previous_gradient_vector = gradient_vector.copy()
+            previous_search_direction = search_direction.copy()
+
             # Update the generalized coordinate
             x = _update(x, search_direction, step)
 
+            # Compute gradient and torques of the updated coordinate
+            _grad(*_unpack(x), gradient_vector=gradient_vector, torques=torques)
+
             # Compute convergence targets
             energy_current = energy(*_unpack(x))
             energy_diff = abs(energy_prev - energy_current)
@@ -1619,9 +1626,6 @@ class Energy:
             for i in range(len(torque_targets)):
                 condition = condition or torque_targets[i] > tolerance[i + 1]
 
-            # Keep values for the next loop
-            previous_gradient_vector = gradient_vector.copy()
-            previous_search_direction = search_direction.copy()
             energy_prev = energy_current
 
             # Update iterators
-- 
2.43.0


From 1e91f6bf86e62a396c09941620797695d7e9b6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 47/55] fix: refused add_on_site() left a new atom in the
 Hamiltonian

---
 src/magnopy/spinham/hamiltonian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 8096b9d..2369ba6 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -798,15 +798,15 @@ class SpinHamiltonian(Crystal):
         # Get the atom by the name
         if isinstance(atom, str):
             atom = self.get_atom(atom)
-        # Add atom to the Hamiltonian if it is not in it
-        # Only works for Atom class
-        elif atom not in self.atoms:
-            self.add_atom(atom)
 
         # Construct parameter if it is not given
         if parameter is None:
             parameter = MatrixParameter(**kwargs)
 
+        # Add atom to the Hamiltonian if it is not in it
+        if atom not in self.atoms:
+            self.add_atom(atom)
+
         self._on_site[atom] = parameter
 
     def remove_on_site(self, atom: Atom, raise_if_no_bond=True):
-- 
2.43.0


From ea46cf304b2aeb6f4ed1f38f208e8246d386f5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 48/55] fix: wrong initial guess of spins raised
 UnboundLocalError instead of ValueError

---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 1784bcb..46bef52 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -56,7 +56,7 @@ def _starting_ferro(n_spins, initial_guess=None):
         try:
             spin_orientation = np.array(initial_guess, dtype=float)
         except:
-            raise ValueError(f"spin_orientation is not array-like: {spin_orientation}")
+            raise ValueError(f"spin_orientation is not array-like: {initial_guess}")
 
         if spin_orientation.shape[-1] != 3:
             raise ValueError(
-- 
2.43.0


From a0f8c05756ed139bc5fda65904a76a184781d1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 49/55] fix: absolute spiral vector of hdf5 files ignored the
 units of the cell

---
 src/magnopy/io/hdf5/internal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 20d321a..2b0f09d 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -276,6 +276,11 @@ def load_spinham_hdf5(
         units = root_group["spiral-vector"].attrs["units"].lower()
 
         if units == "absolute":
+            # Given in the (inverse) units of the lattice vectors
+            if cell.attrs["units"].lower().startswith("bohr"):
+                spiral_vector = spiral_vector / (BOHR_RADIUS / LENGTH)
+            else:
+                spiral_vector = spiral_vector / (ANGSTROM / LENGTH)
             spiral_vector = absolute_to_relative(spiral_vector, spinham.reciprocal_cell)
         elif units != "relative":
             _logger.error(
-- 
2.43.0


From 3c2d648d0450b00a0526338152ef3d8151692dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 50/55] fix: search for the Hamiltonian in hdf5 file failed on
 attributes that are not strings

---
 src/magnopy/io/hdf5/internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 2b0f09d..08ce482 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -81,7 +81,7 @@ def load_spinham_hdf5(
         # Parser rule for the groupname
         def find_spinhams(name):
             try:
-                if file[name].attrs["type"].lower() == "spinhamiltonian":
+                if str(file[name].attrs["type"]).lower() == "spinhamiltonian":
                     potential_groupnames.append(name)
             except KeyError:
                 pass
-- 
2.43.0


From ffdd62c82d090f3e4b24e8d76ed0c00c5a1ebf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:46 +0000
Subject: [PATCH 51/55] fix: refused add_exchange() left a part of its changes
 in the Hamiltonian

---
 src/magnopy/spinham/hamiltonian.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 2369ba6..d0471f4 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -702,27 +702,30 @@ class SpinHamiltonian(Crystal):
             Ignored if ``parameter`` is given.
         """
 
-        # Get the atom by the name
+        # Verify all arguments before the Hamiltonian is changed
+
+        # Get the atoms by the name
         if isinstance(atom1, str):
             atom1 = self.get_atom(atom1)
-        elif atom1 not in self.atoms:
-            self.add_atom(atom1)
-
-        # Get the atom by the name
         if isinstance(atom2, str):
             atom2 = self.get_atom(atom2)
-        elif atom2 not in self.atoms:
-            self.add_atom(atom2)
+
+        i, j, k = ijk
 
         # Construct parameter if it is not given
         if parameter is None:
             parameter = MatrixParameter(**kwargs)
 
+        # Add atoms to the Hamiltonian if they are not in it
+        if atom1 not in self.atoms:
+            self.add_atom(atom1)
+        if atom2 not in self.atoms:
+            self.add_atom(atom2)
+
         self._exchange[(atom1, atom2, ijk)] = parameter
 
         # Check for double counting
         try:
-            i, j, k = ijk
             mirrored = (atom2, atom1, (-i, -j, -k))
             if self.double_counting and mirrored != (atom1, atom2, (i, j, k)):
                 self._exchange[(atom2, atom1, (-i, -j, -k))] = parameter.T
-- 
2.43.0


From d4075fdb8ea0122091cdaaf47feb841a8e3a46c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:23 +0000
Subject: [PATCH 52/55] fix: refused add_exchange() with a wrong type of the
 bond, atom or parameter changed the Hamiltonian

---
 src/magnopy/spinham/hamiltonian.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index d0471f4..00f26bb 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -710,11 +710,20 @@ class SpinHamiltonian(Crystal):
         if isinstance(atom2, str):
             atom2 = self.get_atom(atom2)
 
+        for atom in (atom1, atom2):
+            if not isinstance(atom, Atom):
+                raise TypeError(f"Expected an Atom or its name, got: {atom}")
+
         i, j, k = ijk
+        bond = (atom1, atom2, ijk)
+        mirrored = (atom2, atom1, (-i, -j, -k))
+        # Bonds are the keys of the dictionary, raises TypeError for lists and arrays
+        hash(ijk)
 
         # Construct parameter if it is not given
         if parameter is None:
             parameter = MatrixParameter(**kwargs)
+        mirrored_parameter = parameter.T
 
         # Add atoms to the Hamiltonian if they are not in it
         if atom1 not in self.atoms:
@@ -722,13 +731,12 @@ class SpinHamiltonian(Crystal):
         if atom2 not in self.atoms:
             self.add_atom(atom2)
 
-        self._exchange[(atom1, atom2, ijk)] = parameter
+        self._exchange[bond] = parameter
 
         # Check for double counting
         try:
-            mirrored = (atom2, atom1, (-i, -j, -k))
             if self.double_counting and mirrored != (atom1, atom2, (i, j, k)):
-                self._exchange[(atom2, atom1, (-i, -j, -k))] = parameter.T
+                self._exchange[mirrored] = mirrored_parameter
         # If it fails, then we do not need to add a mirrored bond, since the notation
         # is not defined yet and it is not clear wether the mirrored bond has to
         # be added or not
-- 
2.43.0


From d533a3fd1e137d78d3555b548a4889c4c78d3484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:51 +0000
Subject: [PATCH 53/55] fix: unrecognized lines inside of the bond were
 silently ignored when txt file was read

---
 src/magnopy/io/txt/verify.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 56ee588..888cf41 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -1073,6 +1073,17 @@ def _verify_bond(lines, line_indices, allowed_atoms) -> bool:
                 line_indices[i : i + 4],
                 keyword="matrix",
             )
+            # Three rows of the matrix are already checked
+            i += 3
+
+        # Any other line is not a part of the bond's specification
+        elif line[0][0] not in ["i", "d"]:
+            errors = True
+            _logger.error(
+                f"Line {line_indices[i]}: expected one of the parameter values "
+                f'("isotropic", "dmi", "matrix" or "symmetric-anisotropy") or a '
+                f'separator, got "{lines[i]}"'
+            )
 
         i += 1
 
-- 
2.43.0


From 2ff455785be2848928c8def6836c1d3f3917e95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:06 +0000
Subject: [PATCH 54/55] fix: repeated section of txt file silently replaced the
 first one

---
 src/magnopy/io/txt/verify.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 888cf41..349357c 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -1495,6 +1495,14 @@ def _verify_model_file(lines, line_indices, raise_on_fail=True, return_sections=
             + f"{line_indices[section_start]}-{line_indices[section_end-1]}"
         )
 
+        # The same section can not be given twice
+        if section_keyword in found_sections and section_keyword in _SUPPORTED_SECTIONS:
+            errors = True
+            _logger.error(
+                f'Line {line_indices[section_start]}: found more than one '
+                f'"{section_keyword}" section'
+            )
+
         # Save the position of the found section
         found_sections[section_keyword] = (section_start, section_end)
 
-- 
2.43.0


From 268eb5f3a14a46f8d608103d1487acbf24b8e2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:57 +0000
Subject: [PATCH 55/55] fix: skipped coordinates of the atom in txt file raised
 ValueError

---
 src/magnopy/io/txt/internal.py |  8 ++++----
 src/magnopy/io/txt/verify.py   | 13 +++++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index f4d71b8..c99974b 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -494,8 +494,11 @@ def _read_atoms(lines, spinham: SpinHamiltonian, scale):
         line = line.split()
         name = line[data_header.index("name")]
 
+        # Data that are skipped with "-" are treated as if they are not present
+        skipped = [key for key, value in zip(data_header, line) if value == "-"]
+
         # Find the coordinates
-        if "r1" in data_header:
+        if "r1" in data_header and not {"r1", "r2", "r3"} & set(skipped):
             relative = True
             _logger.info(f"Atom {name}: Relative coordinates are detected.")
             position = (
@@ -516,9 +519,6 @@ def _read_atoms(lines, spinham: SpinHamiltonian, scale):
                 * units_conversion
             )
 
-        # Data that are skipped with "-" are treated as if they are not present
-        skipped = [key for key, value in zip(data_header, line) if value == "-"]
-
         # Find charge
         if "q" in data_header and "q" not in skipped:
             charge = float(line[data_header.index("q")])
diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 349357c..8b622de 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -787,6 +787,19 @@ def _verify_atoms(lines, line_indices):
                     )
                 )
 
+        # Position has to be given for every atom
+        given = {
+            keyword
+            for keyword, block in zip(lines[1].lower().split(), line)
+            if block != "-"
+        }
+        if not ({"r1", "r2", "r3"} <= given or {"x", "y", "z"} <= given):
+            errors = True
+            _logger.error(
+                f"Line {line_indices[i]}: position of the atom is not given, "
+                f'got "{lines[i]}"'
+            )
+
     if len(allowed_atoms) != len(lines) - 2:
         errors = True
         _logger.error(
-- 
2.43.0

