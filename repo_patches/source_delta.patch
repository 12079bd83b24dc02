From 4ec1a0c95301da0d67e02afdedfc9d7cea16be21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 01/41] fix: apply symmetry rotations in row-vector convention

spglib rotations act on column vectors. Positions are row vectors, so the
rotation must be transposed; otherwise operations of hexagonal and primitive
cells do not map the structure onto itself.
---
 ramannoodle/structure/_reference.py | 30 +++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 98cbd7e..f715ecb 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -23,6 +23,31 @@ from ramannoodle.constants import ATOM_SYMBOLS
 from ramannoodle.structure import _symmetry_utils
 
 
+def _get_row_convention_operations(
+    rotations: NDArray[np.int32], translations: NDArray[np.float64]
+) -> tuple[NDArray[np.int32], NDArray[np.float64]]:
+    """Express spglib operations such that they act on row vectors.
+
+    Spglib's rotations act on column vectors (x' = R @ x + t), whereas positions are
+    row vectors (x' = x @ R.T + t). If (R.T, t) is also among the operations, this pair
+    of operations is swapped. This does not alter the set of operations, but keeps the
+    order of rotations for lattices in which transposing a rotation gives its inverse.
+    """
+
+    def get_key(
+        rotation: NDArray[np.int32], translation: NDArray[np.float64]
+    ) -> tuple[int, ...]:
+        rounded_translation = np.rint(translation * 1e4).astype(int) % 10000
+        return (*rotation.flatten().tolist(), *rounded_translation.tolist())
+
+    keys = {get_key(r, t): i for i, (r, t) in enumerate(zip(rotations, translations))}
+    order = [
+        keys.get(get_key(r.T, t), i)
+        for i, (r, t) in enumerate(zip(rotations, translations))
+    ]
+    return rotations[order].transpose(0, 2, 1), translations[order]
+
+
 def _compute_permutation_matrices(
     rotations: NDArray[np.float64],
     translations: NDArray[np.float64],
@@ -118,8 +143,9 @@ class ReferenceStructure:
         if self._symmetry_dict is None:
             raise SymmetryException("Symmetry search failed. Check structure.")
 
-        self._rotations = self._symmetry_dict["rotations"]
-        self._translations = self._symmetry_dict["translations"]
+        self._rotations, self._translations = _get_row_convention_operations(
+            self._symmetry_dict["rotations"], self._symmetry_dict["translations"]
+        )
         self._permutation_matrices = _compute_permutation_matrices(
             self._rotations, self._translations, self._positions
         )
-- 
2.43.0


From ff947588febdb9267a42626e6bd8c518315885f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 02/41] fix: compare equivalent displacements in Cartesian
 space

Fractional dot products are not angles unless the lattice is orthonormal, so
degrees of freedom generated in e.g. hexagonal cells were not orthogonal.
---
 ramannoodle/structure/_reference.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index f715ecb..75617ec 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -249,8 +249,10 @@ class ReferenceStructure:
                 candidate_positions,
             )
 
+            # Angles are only meaningful in Cartesian space
+            cart_candidate_displacement = candidate_displacement @ self._lattice
             orthogonal_result = _symmetry_utils.is_orthogonal_to_all(
-                candidate_displacement.flatten(),
+                cart_candidate_displacement.flatten(),
                 [item.flatten() for item in orthogonal_displacements],
             )
 
@@ -262,11 +264,11 @@ class ReferenceStructure:
                         "transformations": [(rotation, translation)],
                     }
                 )
-                orthogonal_displacements.append(candidate_displacement)
+                orthogonal_displacements.append(cart_candidate_displacement)
             else:
                 # Candidate can be collinear to maximum of one orthogonal vector
                 collinear_result = _symmetry_utils.is_non_collinear_with_all(
-                    candidate_displacement,
+                    cart_candidate_displacement,
                     orthogonal_displacements,
                 )
                 if collinear_result != -1:  # collinear
-- 
2.43.0


From 6e1b5602a54d60b450f38e34cb681f352f5ba923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 03/41] fix: rotate polarizabilities in Cartesian space

Polarizabilities of symmetrically equivalent displacements were transformed
with fractional rotation matrices, which is wrong for any lattice whose
symmetry operations differ between fractional and Cartesian coordinates.
---
 ramannoodle/pmodel/_interpolation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 3714a8a..af52974 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -301,6 +301,9 @@ class InterpolationModel(PolarizabilityModel):
             self._ref_structure.get_equivalent_displacements(parent_displacement)
         )
 
+        lattice = self._ref_structure.lattice
+        inv_lattice = np.linalg.inv(lattice)
+
         basis_vectors: list[NDArray[np.float64]] = []
         interpolation_xs: list[list[float]] = []
         interpolation_ys: list[list[NDArray[np.float64]]] = []
@@ -323,7 +326,8 @@ class InterpolationModel(PolarizabilityModel):
 
                 for amplitude, polarizability in zip(amplitudes, polarizabilities):
                     interpolation_x.append(multiplier * amplitude)
-                    rotation = transformation[0]
+                    # Polarizabilities are Cartesian, so rotation must be as well
+                    rotation = inv_lattice @ transformation[0] @ lattice
                     delta_polarizability = polarizability - self._ref_polarizability
 
                     interpolation_y.append(
-- 
2.43.0


From 6ecba918eb93b425482978252f0a9f65167ab428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 04/41] fix: reject dofs whose symmetric images overlap
 existing dofs

Only the specified displacement was required to be orthogonal to the existing
basis vectors; its symmetrically equivalent displacements were not, so that
contributions could be counted more than once.
---
 ramannoodle/pmodel/_interpolation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index af52974..510948d 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -338,6 +338,14 @@ class InterpolationModel(PolarizabilityModel):
                 child_displacement
             )
             child_cart_basis_vector /= np.linalg.norm(child_cart_basis_vector)
+            result = is_orthogonal_to_all(
+                child_cart_basis_vector, self._cart_basis_vectors
+            )
+            if result != -1:
+                raise InvalidDOFException(
+                    "symmetrically equivalent dof is not orthogonal with existing dof "
+                    f"(index={result})"
+                )
 
             basis_vectors.append(child_cart_basis_vector)
             interpolation_xs.append(interpolation_x)
-- 
2.43.0


From f886d9aef941faec69e858a2bae56602c4dabbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 05/41] fix: do not wrap symmetrically equivalent displacements

In strongly skewed cells, the image of a (scaled) displacement can exceed half
a lattice vector and was folded back, giving wrong or missing dofs.
---
 ramannoodle/pmodel/_interpolation.py |  4 +---
 ramannoodle/structure/_reference.py  | 15 +++------------
 2 files changed, 4 insertions(+), 15 deletions(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 510948d..75b3d06 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -334,9 +334,7 @@ class InterpolationModel(PolarizabilityModel):
                         (np.linalg.inv(rotation) @ delta_polarizability @ rotation)
                     )
 
-            child_cart_basis_vector = self._ref_structure.get_cart_displacement(
-                child_displacement
-            )
+            child_cart_basis_vector = child_displacement @ lattice
             child_cart_basis_vector /= np.linalg.norm(child_cart_basis_vector)
             result = is_orthogonal_to_all(
                 child_cart_basis_vector, self._cart_basis_vectors
diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 75617ec..617f8c3 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -17,7 +17,6 @@ from ramannoodle.structure.utils import (
     displace_positions,
     transform_positions,
     apply_pbc_displacement,
-    calc_displacement,
 )
 from ramannoodle.constants import ATOM_SYMBOLS
 from ramannoodle.structure import _symmetry_utils
@@ -231,23 +230,15 @@ class ReferenceStructure:
         # Scale the displacement for numerical reasons.
         displacement = displacement / (np.linalg.norm(displacement) * 10)
 
-        ref_positions = displace_positions(self._positions, displacement)
-
         result = []
         orthogonal_displacements: list[NDArray[np.float64]] = []
         for rotation, translation, permutation_matrix in zip(
             self._rotations, self._translations, self._permutation_matrices
         ):
 
-            # Transform, permute, then get candidate displacement
-            candidate_positions = transform_positions(
-                ref_positions, rotation, translation
-            )
-            candidate_positions = permutation_matrix @ candidate_positions
-            candidate_displacement = calc_displacement(
-                self._positions,
-                candidate_positions,
-            )
+            # Rotate, then permute to get candidate displacement. We avoid positions
+            # here, as rotated displacements can exceed half the unit cell.
+            candidate_displacement = permutation_matrix @ (displacement @ rotation)
 
             # Angles are only meaningful in Cartesian space
             cart_candidate_displacement = candidate_displacement @ self._lattice
-- 
2.43.0


From ffa6848d36ddc0094da8eebaeed1a2bb48550255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 06/41] fix: do not apply periodic boundary conditions to
 directions

Directions longer than half a lattice vector were folded back into the cell,
which changed or annihilated them. get_cart_direction now also returns the
documented shape.
---
 ramannoodle/structure/_reference.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 617f8c3..b07c7a7 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -11,7 +11,6 @@ from ramannoodle.exceptions import (
     get_type_error,
     verify_ndarray_shape,
     verify_list_len,
-    get_shape_error,
 )
 from ramannoodle.structure.utils import (
     displace_positions,
@@ -316,11 +315,8 @@ class ReferenceStructure:
         :
             (Å) Array with shape (3,).
         """
-        direction = apply_pbc_displacement(direction)
-        try:
-            return np.array([direction]) @ self._lattice
-        except ValueError as exc:
-            raise get_shape_error("direction", direction, "(3,)") from exc
+        verify_ndarray_shape("direction", direction, (3,))
+        return direction @ self._lattice
 
     def get_frac_displacement(
         self, cart_displacement: NDArray[np.float64]
@@ -357,8 +353,7 @@ class ReferenceStructure:
             (fractional) Array with shape (3,).
         """
         verify_ndarray_shape("direction", cart_direction, (3,))
-        displacement = np.array([cart_direction]) @ np.linalg.inv(self.lattice)
-        return apply_pbc_displacement(displacement[0])
+        return cart_direction @ np.linalg.inv(self.lattice)
 
     def get_atom_indexes(self, atom_symbols: str | list[str]) -> list[int]:
         """Return atom indexes with matching symbols.
-- 
2.43.0


From 5cae78f11ea93e6afd8bc3d93db3e2c5f1e2e8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 07/41] fix: ignore magnitude of displacement when adding dofs

Displacements longer than half a lattice vector were folded back into the
cell, which changed their direction. Displacements for the wrong number of
atoms are now rejected.
---
 ramannoodle/pmodel/_interpolation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 75b3d06..44cad7b 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -460,12 +460,12 @@ class InterpolationModel(PolarizabilityModel):
             Provided degree of freedom was invalid.
 
         """
-        try:
-            displacement = self.ref_structure.get_frac_displacement(cart_displacement)
-
-            parent_displacement = displacement / np.linalg.norm(displacement * 10.0)
-        except TypeError as exc:
-            raise TypeError("displacement is not an ndarray") from exc
+        verify_ndarray_shape(
+            "cart_displacement", cart_displacement, (self._ref_structure.num_atoms, 3)
+        )
+        # Only the direction matters, so periodic boundary conditions do not apply
+        displacement = cart_displacement @ np.linalg.inv(self._ref_structure.lattice)
+        parent_displacement = displacement / np.linalg.norm(displacement * 10.0)
         verify_ndarray_shape("amplitudes", amplitudes, (None,))
         if self._is_dummy_model:
             polarizabilities = np.zeros((len(amplitudes), 3, 3))
-- 
2.43.0


From d8a1d7145079988ff33113b8aff79268a3b27109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:47 +0000
Subject: [PATCH 08/41] fix: respect symmetry tolerance when matching
 equivalent atoms

Atoms were matched with a fixed tolerance regardless of symprec, so symmetric
equivalents were silently lost for looser tolerances.
---
 ramannoodle/structure/_reference.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index b07c7a7..d499006 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -90,7 +90,13 @@ def _get_positions_permutation_matrix(
         displacement % 1 > 0.5, displacement % 1 - 1, displacement % 1
     )
     distance_matrix = np.sqrt(np.sum(displacement**2, axis=-1))
-    permutation_matrix = (distance_matrix < 1e-5).T
+
+    # Positions only match to within the tolerance of the symmetry search, which is
+    # set by the user. We therefore match each position with its nearest neighbor.
+    permutation_matrix = np.zeros(distance_matrix.shape, dtype=bool)
+    permutation_matrix[
+        np.argmin(distance_matrix, axis=1), np.arange(len(distance_matrix))
+    ] = True
 
     return permutation_matrix
 
-- 
2.43.0


From fd839238553891e7b44ed0817670937268b379f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 09/41] fix: accept reference positions outside of the unit
 cell

Files and pymatgen structures may contain fractional coordinates outside of
[0,1] (for example through rounding), which raised an unrelated ValueError.
---
 ramannoodle/structure/_reference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index d499006..2d5ceb4 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -15,6 +15,7 @@ from ramannoodle.exceptions import (
 from ramannoodle.structure.utils import (
     displace_positions,
     transform_positions,
+    apply_pbc,
     apply_pbc_displacement,
 )
 from ramannoodle.constants import ATOM_SYMBOLS
@@ -62,7 +63,7 @@ def _compute_permutation_matrices(
             _get_positions_permutation_matrix(
                 displace_positions(positions, center_of_mass_shift),
                 transform_positions(
-                    positions, rotation, translation + center_of_mass_shift
+                    apply_pbc(positions), rotation, translation + center_of_mass_shift
                 ),
             )
         )
-- 
2.43.0


From 14f10454fed11f4357f84355378d29b081d64e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 10/41] fix: compare list lengths by value

Lists longer than 256 items were rejected, as lengths were compared by
identity.
---
 ramannoodle/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/exceptions.py b/ramannoodle/exceptions.py
index a900de9..a18b272 100644
--- a/ramannoodle/exceptions.py
+++ b/ramannoodle/exceptions.py
@@ -119,8 +119,8 @@ def verify_list_len(name: str, array: list[Any], length: int | None) -> None:
     """
     if not isinstance(array, list):
         raise get_type_error(name, array, "list")
-    if length is not None and len(array) is not length:
-        raise ValueError(f"{name} has wrong length: {len(array)} != length")
+    if length is not None and len(array) != length:
+        raise ValueError(f"{name} has wrong length: {len(array)} != {length}")
 
 
 def verify_positions(name: str, array: NDArray[Any]) -> None:
-- 
2.43.0


From b4b8c6d263015062d9fd66dbbf20f67d9c92e230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:30 +0000
Subject: [PATCH 11/41] fix: apply scale factor to Cartesian POSCAR positions

Cartesian positions are given in units of the scale factor. Negative scale
factors (unit cell volumes) are now honored as well.
---
 ramannoodle/io/vasp/poscar.py  | 31 ++++++++++++++++++++-----------
 ramannoodle/io/vasp/xdatcar.py |  6 ++++--
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index 24b1ff0..3210ae0 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -15,8 +15,14 @@ from ramannoodle.io.vasp.outcar import _get_lattice_vector_from_outcar_line
 # pylint: disable=R0801
 
 
-def _read_lattice(file: TextIO) -> NDArray[np.float64]:
-    """Read all three lattice vectors (in angstroms) from a VASP POSCAR file.
+def _read_lattice(file: TextIO) -> tuple[NDArray[np.float64], float]:
+    """Read lattice and scale factor from a VASP POSCAR file.
+
+    Returns
+    -------
+    :
+        0.  lattice -- (Å) Array with shape (3,3). Scale factor is already applied.
+        #.  scale factor
 
     Raises
     ------
@@ -40,7 +46,10 @@ def _read_lattice(file: TextIO) -> NDArray[np.float64]:
             raise InvalidFileException(f"lattice could not be parsed: {line}")
         lattice.append(vector)
 
-    return np.array(lattice) * scale_factor
+    if scale_factor < 0:  # negative scale factors specify the unit cell volume
+        volume = np.abs(np.linalg.det(np.array(lattice)))
+        scale_factor = float(np.cbrt(-scale_factor / volume))
+    return np.array(lattice) * scale_factor, scale_factor
 
 
 def _read_atomic_symbols(file: TextIO) -> list[str]:
@@ -80,7 +89,7 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
 
 
 def _read_positions(
-    file: TextIO, lattice: NDArray[np.float64], num_atoms: int
+    file: TextIO, lattice: NDArray[np.float64], scale_factor: float, num_atoms: int
 ) -> NDArray[np.float64]:
     """Read atomic symbols from a VASP POSCAR file.
 
@@ -116,7 +125,7 @@ def _read_positions(
         positions.append(position)
 
     if cart_mode:
-        return np.array(positions) @ np.linalg.inv(lattice)
+        return np.array(positions) * scale_factor @ np.linalg.inv(lattice)
     return np.array(positions)
 
 
@@ -143,9 +152,9 @@ def read_positions(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(file, lattice, scale_factor, len(atomic_symbols))
         return positions
 
 
@@ -167,10 +176,10 @@ def read_structure(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(file, lattice, scale_factor, len(atomic_symbols))
         return lattice, atomic_numbers, positions
 
 
@@ -194,10 +203,10 @@ def read_ref_structure(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(file, lattice, scale_factor, len(atomic_symbols))
         return ReferenceStructure(atomic_numbers, lattice, positions)
 
 
diff --git a/ramannoodle/io/vasp/xdatcar.py b/ramannoodle/io/vasp/xdatcar.py
index dd2e6fc..bdd85ae 100644
--- a/ramannoodle/io/vasp/xdatcar.py
+++ b/ramannoodle/io/vasp/xdatcar.py
@@ -43,11 +43,13 @@ def read_positions_ts(
     filepath = pathify(filepath)
     positions_ts = []
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         while True:
             try:
-                positions = _read_positions(file, lattice, len(atomic_symbols))
+                positions = _read_positions(
+                    file, lattice, scale_factor, len(atomic_symbols)
+                )
                 positions_ts.append(positions)
             except InvalidFileException as exc:
                 if "missing first character in coordinate format:" in str(exc):
-- 
2.43.0


From d3a42850d0c9d38415128ad41bd3405ada640b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 12/41] fix: return copies of spectrum data

Modifying a measured spectrum's wavenumbers or the polarizability time series
(documented as a copy) corrupted the spectrum and the phonons it came from.
---
 ramannoodle/spectrum/_raman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/spectrum/_raman.py b/ramannoodle/spectrum/_raman.py
index 8066e47..7b5ac50 100644
--- a/ramannoodle/spectrum/_raman.py
+++ b/ramannoodle/spectrum/_raman.py
@@ -191,7 +191,7 @@ class PhononRamanSpectrum(RamanSpectrum):
                 self._phonon_wavenumbers, temperature
             )
 
-        return self._phonon_wavenumbers, intensities
+        return self.phonon_wavenumbers, intensities
 
 
 class MDRamanSpectrum(RamanSpectrum):
@@ -224,7 +224,7 @@ class MDRamanSpectrum(RamanSpectrum):
         :
             Array with shape (S,3,3) where S is the number of configurations.
         """
-        return self._polarizability_ts
+        return self._polarizability_ts.copy()
 
     @property
     def timestep(self) -> float:
-- 
2.43.0


From a941adcb318803dac715d05d0dc067cf2f13fc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 13/41] fix: copy mask when setting it

Unmasking a model modified the array which was previously used as a mask.
---
 ramannoodle/pmodel/_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 44cad7b..b20f4c3 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -186,7 +186,7 @@ class InterpolationModel(PolarizabilityModel):
             "masked" and excluded from polarizability calculations.
         """
         verify_ndarray_shape("mask", value, self._mask.shape)
-        self._mask = value
+        self._mask = value.copy()
 
     def calc_polarizabilities(
         self, positions_batch: NDArray[np.float64]
-- 
2.43.0


From f087e7861c78f474bcdf83f20f2cb31a1e40f7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 14/41] fix: allow integer out_wavenumbers in convolve_spectrum

---
 ramannoodle/spectrum/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/spectrum/utils.py b/ramannoodle/spectrum/utils.py
index a5a796c..087b528 100644
--- a/ramannoodle/spectrum/utils.py
+++ b/ramannoodle/spectrum/utils.py
@@ -54,7 +54,7 @@ def convolve_spectrum(
         raise get_type_error("width", width, "float") from exc
     verify_ndarray("out_wavenumbers", out_wavenumbers)
 
-    convolved_intensities = out_wavenumbers * 0
+    convolved_intensities = out_wavenumbers * 0.0
     for wavenumber, intensity in zip(wavenumbers, intensities):
         factor = 0
         if function == "gaussian":
-- 
2.43.0


From e3f187cb6dc68e1388c85039a00279cc4fec0f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 15/41] fix: give imaginary phonons in vasprun.xml negative
 wavenumbers

The sign was evaluated after taking the square root and thus always positive.
---
 ramannoodle/io/vasp/vasprun.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index 5559f8c..472df0a 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -343,8 +343,11 @@ def _parse_eigenvalues(root: Element) -> NDArray[np.float64]:
     if element.text is None:
         raise InvalidFileException("eigenvalues has no text")
     eigenvalues = np.array([float(i) for i in element.text.split()])
+    # The dynamical matrix is defined with the opposite sign, so real modes have
+    # negative eigenvalues. Imaginary modes are given negative wavenumbers.
+    signs = np.sign(-eigenvalues)
     eigenvalues = np.sqrt(np.abs(-eigenvalues)) * 1 / 0.0299792458
-    eigenvalues *= np.sign(eigenvalues)
+    eigenvalues *= signs
     return eigenvalues
 
 
-- 
2.43.0


From 057b18c023655a18624b408cfb5baa49a7f60970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 16/41] fix: keep default dtype when rescaling a polarizability
 dataset

Rescaled datasets were double precision and could not be used for training.
---
 ramannoodle/dataset/torch/_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/dataset/torch/_dataset.py b/ramannoodle/dataset/torch/_dataset.py
index b43d016..4e42ebd 100644
--- a/ramannoodle/dataset/torch/_dataset.py
+++ b/ramannoodle/dataset/torch/_dataset.py
@@ -214,7 +214,7 @@ class PolarizabilityDataset(Dataset[tuple[Tensor, Tensor, Tensor, Tensor]]):
         scaled /= torch.tensor(stddev)
         self._scaled_polarizabilities = (
             rn_torch_utils.polarizability_tensors_to_vectors(scaled)
-        )
+        ).type(torch.get_default_dtype())
 
     def __len__(self) -> int:
         """Get number of samples."""
-- 
2.43.0


From 53e0c7f510d09b74c4fb58a357283faee709c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 17/41] fix: never predict polarizabilities with an empty dummy
 model

The documented UserError was only raised if dofs had been specified.
---
 ramannoodle/pmodel/_interpolation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index b20f4c3..9a67f54 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -210,6 +210,8 @@ class InterpolationModel(PolarizabilityModel):
             Model is a dummy model.
 
         """
+        if self._is_dummy_model and len(self._cart_basis_vectors) == 0:
+            raise UserError("dummy model cannot calculate polarizabilities")
         try:
             delta_polarizabilities: NDArray[np.float64] = np.zeros(
                 (positions_batch.shape[0], 3, 3)
-- 
2.43.0


From 945e8921db4c27e31c927b95ea96fe4b8e1d05e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 18/41] fix: reject truncated and corrupted OUTCAR files

---
 ramannoodle/io/vasp/outcar.py | 49 ++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index b552dea..4c67679 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -60,6 +60,9 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
             if "POTCAR" not in line:
                 break
             potcar_symbols.append(_get_atomic_symbol_from_potcar_line(line))
+        # If this directly follows, we've already read the first potcar for 2nd time
+        if "VRHFIN" in line and potcar_symbols[-1] != potcar_symbols[0]:
+            raise ValueError("missing POTCAR line")
 
         # HACK: We read the next line and clean up as appropriate.
         # I wish the OUTCAR format was easier to parse, but alas, here we are.
@@ -75,17 +78,39 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
     try:
         line = _skip_file_until_line_contains(file, "ions per type")
         atomic_numbers = [int(item) for item in line.split()[4:]]
+        # Some versions of VASP write the first few POTCAR lines twice.
+        num_types = len(atomic_numbers)
+        repeated_symbols = potcar_symbols[num_types:]
+        if (
+            min(atomic_numbers, default=0) < 1
+            or num_types > len(potcar_symbols)
+            or repeated_symbols != potcar_symbols[: len(repeated_symbols)]
+        ):
+            raise ValueError("ion numbers do not match POTCAR block")
 
         atomic_symbols = []
         for symbol, number in zip(potcar_symbols, atomic_numbers):
             atomic_symbols += [symbol] * number
         return atomic_symbols
-    except (NoMatchingLineFoundException, IndexError) as exc:
+    except (NoMatchingLineFoundException, IndexError, ValueError) as exc:
         raise InvalidFileException(
             f"ion number block could not be parsed: {line}"
         ) from exc
 
 
+def _get_coordinates_from_outcar_line(line: str) -> list[float]:
+    """Read first three numbers from a line in a VASP OUTCAR file.
+
+    Raises
+    ------
+    ValueError
+    """
+    coordinates = [float(item) for item in line.split()[0:3]]
+    if len(coordinates) != 3:
+        raise ValueError(f"line does not have three numbers: {line}")
+    return coordinates
+
+
 def _read_eigenvector(
     file: TextIO, num_atoms: int, lattice: NDArray[np.float64]
 ) -> NDArray[np.float64]:
@@ -96,6 +121,7 @@ def _read_eigenvector(
     InvalidFileException
     """
     eigenvector: list[NDArray[np.float64]] = []
+    line = ""
     try:
         for line in file:
             if len(eigenvector) == num_atoms:
@@ -105,6 +131,8 @@ def _read_eigenvector(
             vector = [float(item) for item in line.split()[3:]]
             vector = vector @ np.linalg.inv(lattice)
             eigenvector.append(vector)
+        if len(eigenvector) != num_atoms:
+            raise ValueError("unexpected end of file")
         return np.array(eigenvector)
     except (ValueError, IndexError) as exc:
         raise InvalidFileException(f"eigenvector could not be parsed: {line}") from exc
@@ -127,7 +155,7 @@ def _read_cart_positions(file: TextIO, num_atoms: int) -> NDArray[np.float64]:
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            cart_coordinates.append([float(item) for item in line.split()[0:3]])
+            cart_coordinates.append(_get_coordinates_from_outcar_line(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"cartesian positions could not be parsed: {line}"
@@ -154,7 +182,7 @@ def _read_positions(file: TextIO, num_atoms: int) -> NDArray[np.float64]:
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            positions.append([float(item) for item in line.split()[0:3]])
+            positions.append(_get_coordinates_from_outcar_line(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"fractional positions could not be parsed: {line}"
@@ -185,7 +213,7 @@ def _read_polarizability(file: TextIO) -> NDArray[np.float64]:
     for _ in range(3):
         try:
             line = file.readline()
-            polarizability.append([float(item) for item in line.split()[0:3]])
+            polarizability.append(_get_coordinates_from_outcar_line(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"polarizability could not be parsed: {line}"
@@ -237,6 +265,8 @@ def _read_lattice(file: TextIO) -> NDArray[np.float64]:
             lattice.append(_get_lattice_vector_from_outcar_line(line))
         except (EOFError, ValueError) as exc:
             raise InvalidFileException(f"lattice could not be parsed: {line}") from exc
+        if lattice[-1].shape != (3,):
+            raise InvalidFileException(f"lattice could not be parsed: {line}")
 
     return np.array(lattice)
 
@@ -291,7 +321,12 @@ def read_phonons(filepath: str | Path) -> Phonons:
                     )
                 else:
                     wavenumbers.append(float(line.split()[7]))
-            except (NoMatchingLineFoundException, TypeError, IndexError) as exc:
+            except (
+                NoMatchingLineFoundException,
+                TypeError,
+                IndexError,
+                ValueError,
+            ) as exc:
                 raise InvalidFileException("eigenvalue could not be parsed") from exc
             eigenvectors.append(_read_eigenvector(file, num_atoms, lattice))
 
@@ -469,7 +504,7 @@ def _read_next_cart_positions_ts(file: TextIO, num_atoms: int) -> NDArray[np.flo
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            cart_positions.append([float(item) for item in line.split()[0:3]])
+            cart_positions.append(_get_coordinates_from_outcar_line(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"Cartesian positions could not be parsed: {line}"
@@ -490,7 +525,7 @@ def _read_timestep(file: TextIO) -> float:
         raise InvalidFileException("timestep not found") from exc
     try:
         return float(line.split()[2])
-    except (IndexError, TypeError) as exc:
+    except (IndexError, TypeError, ValueError) as exc:
         raise InvalidFileException(f"timestep could not be parsed: {line}") from exc
 
 
-- 
2.43.0


From cff82166b145d9bc708ff1d2eee07a604063ad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 19/41] fix: reject incomplete XDATCAR and POSCAR files

---
 ramannoodle/io/vasp/poscar.py  | 8 ++++++--
 ramannoodle/io/vasp/xdatcar.py | 7 ++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index 3210ae0..1359284 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -32,6 +32,8 @@ def _read_lattice(file: TextIO) -> tuple[NDArray[np.float64], float]:
         file.readline()
         line = file.readline()
         scale_factor = float(line)
+        if scale_factor == 0:
+            raise ValueError("scale factor is zero")
     except ValueError as exc:
         raise InvalidFileException(f"scale factor could not be parsed: {line}") from exc
 
@@ -79,6 +81,8 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
     for count in str_counts:
         try:
             int_counts.append(int(count))
+            if int_counts[-1] < 1:
+                raise ValueError("count must be positive")
         except ValueError as err:
             raise InvalidFileException(f"could not parse counts: {line}") from err
 
@@ -106,9 +110,9 @@ def _read_positions(
         )
     if label[0].lower() == "s":  # selective dynamics
         label = file.readline()
-    if label[0].lower() == "c":
+    if label[:1].lower() == "c":
         cart_mode = True
-    elif label[0].lower() != "d":
+    elif label[:1].lower() != "d":
         raise InvalidFileException(f"unrecognized coordinate format: {label}")
 
     positions = []
diff --git a/ramannoodle/io/vasp/xdatcar.py b/ramannoodle/io/vasp/xdatcar.py
index bdd85ae..40eb416 100644
--- a/ramannoodle/io/vasp/xdatcar.py
+++ b/ramannoodle/io/vasp/xdatcar.py
@@ -52,7 +52,12 @@ def read_positions_ts(
                 )
                 positions_ts.append(positions)
             except InvalidFileException as exc:
-                if "missing first character in coordinate format:" in str(exc):
+                # The trajectory is only complete if there's nothing left to read
+                if (
+                    "missing first character in coordinate format:" in str(exc)
+                    and len(positions_ts) != 0
+                    and file.read().strip() == ""
+                ):
                     break
                 raise exc
         return np.array(positions_ts)
-- 
2.43.0


From 99f2119ae0c60831ff08131682e64d1bb0e6c12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 20/41] fix: do not fail with decoding errors when reading
 files

---
 ramannoodle/io/vasp/outcar.py  | 12 ++++++------
 ramannoodle/io/vasp/poscar.py  |  6 +++---
 ramannoodle/io/vasp/vasprun.py | 12 ++++++------
 ramannoodle/io/vasp/xdatcar.py |  2 +-
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index 4c67679..ad84feb 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -293,7 +293,7 @@ def read_phonons(filepath: str | Path) -> Phonons:
     eigenvectors = []
 
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
 
         # get atom information
         atomic_symbols = _read_atomic_symbols(file)
@@ -365,7 +365,7 @@ def read_positions_and_polarizability(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as outcar_file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as outcar_file:
         num_atoms = len(_read_atomic_symbols(outcar_file))
         positions = _read_positions(outcar_file, num_atoms)
         polarizability = _read_polarizability(outcar_file)
@@ -392,7 +392,7 @@ def read_positions(filepath: str | Path) -> NDArray[np.float64]:
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         num_atoms = len(_read_atomic_symbols(file))
         positions = _read_positions(file, num_atoms)
         return positions
@@ -427,7 +427,7 @@ def read_structure_and_polarizability(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as outcar_file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as outcar_file:
         atomic_symbols = _read_atomic_symbols(outcar_file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
         lattice = _read_lattice(outcar_file)
@@ -481,7 +481,7 @@ def read_ref_structure(filepath: str | Path) -> ReferenceStructure:
         Structural symmetry determination failed.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
         lattice = _read_lattice(file)
@@ -544,7 +544,7 @@ def read_trajectory(filepath: str | Path) -> Trajectory:
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         atomic_symbols = _read_atomic_symbols(file)
         timestep = _read_timestep(file)
         lattice = _read_lattice(file)
diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index 1359284..699e62e 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -155,7 +155,7 @@ def read_positions(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         positions = _read_positions(file, lattice, scale_factor, len(atomic_symbols))
@@ -179,7 +179,7 @@ def read_structure(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
@@ -206,7 +206,7 @@ def read_ref_structure(
         Structural symmetry determination failed.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index 472df0a..4fbd00a 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -140,7 +140,7 @@ def read_positions_and_polarizability(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         root = _get_root_element(file)
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
@@ -179,7 +179,7 @@ def read_structure_and_polarizability(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         root = _get_root_element(file)
         atomic_symbols = _parse_atomic_symbols(root)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
@@ -237,7 +237,7 @@ def read_positions(filepath: str | Path) -> NDArray[np.float64]:
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         root = _get_root_element(file)
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
@@ -267,7 +267,7 @@ def read_ref_structure(filepath: str | Path) -> ReferenceStructure:
         Structural symmetry determination failed.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         root = _get_root_element(file)
         atomic_symbols = _parse_atomic_symbols(root)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
@@ -310,7 +310,7 @@ def read_trajectory(filepath: str | Path) -> Trajectory:
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         root = _get_root_element(file)
 
         structures = root.iterfind("structure")
@@ -394,7 +394,7 @@ def read_phonons(filepath: str | Path) -> Phonons:
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         root = _get_root_element(file)
 
         atomic_symbols = _parse_atomic_symbols(root)
diff --git a/ramannoodle/io/vasp/xdatcar.py b/ramannoodle/io/vasp/xdatcar.py
index 40eb416..e4d1781 100644
--- a/ramannoodle/io/vasp/xdatcar.py
+++ b/ramannoodle/io/vasp/xdatcar.py
@@ -42,7 +42,7 @@ def read_positions_ts(
     """
     filepath = pathify(filepath)
     positions_ts = []
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         while True:
-- 
2.43.0


From e50a375a72fa61802cee1aa6d897ac11e53f0551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 21/41] fix: reject incomplete and inconsistent vasprun.xml
 files

---
 ramannoodle/io/vasp/vasprun.py | 107 ++++++++++++++++++---------------
 1 file changed, 60 insertions(+), 47 deletions(-)

diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index 4fbd00a..f0f0b93 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -4,6 +4,7 @@ from typing import TextIO
 from pathlib import Path
 from xml.etree.ElementTree import Element
 import defusedxml.ElementTree as ET
+from defusedxml.common import DefusedXmlException
 
 import numpy as np
 from numpy.typing import NDArray
@@ -26,10 +27,40 @@ def _get_root_element(file: TextIO) -> Element:
         root = ET.parse(file).getroot()
         assert isinstance(root, Element)
         return root
-    except ET.ParseError as exc:
+    except (ET.ParseError, DefusedXmlException) as exc:
         raise InvalidFileException("root xml element could not be found") from exc
 
 
+def _parse_floats(element: Element) -> NDArray[np.float64]:
+    """Parse whitespace-separated floats from text of a vasprun.xml Element.
+
+    Raises
+    ------
+    InvalidFileException
+    """
+    if element.text is None:
+        raise InvalidFileException(f"{element.tag} element has no text")
+    try:
+        return np.array([float(i) for i in element.text.split()])
+    except ValueError as exc:
+        raise InvalidFileException(f"could not be parsed: {element.text}") from exc
+
+
+def _parse_varray(
+    varray: Element, num_rows: int, num_columns: int = 3
+) -> NDArray[np.float64]:
+    """Parse an varray with known shape from a vasprun.xml Element.
+
+    Raises
+    ------
+    InvalidFileException
+    """
+    rows = [_parse_floats(child) for child in varray]
+    if len(rows) != num_rows or any(row.shape != (num_columns,) for row in rows):
+        raise InvalidFileException("varray does not have expected shape")
+    return np.array(rows)
+
+
 def _parse_atomic_symbols(root: Element) -> list[str]:
     """Parse atomic symbols from a vasprun.xml Element.
 
@@ -44,14 +75,20 @@ def _parse_atomic_symbols(root: Element) -> list[str]:
 
     atomic_symbols = []
     for child in set_element:
-        atomic_symbol = child[0].text
+        atomic_symbol = child[0].text if len(child) != 0 else None
         if atomic_symbol is None:
             raise InvalidFileException("child has no text")
+        if atomic_symbol.strip() not in ATOMIC_NUMBERS:
+            raise InvalidFileException(f"unrecognized atomic symbol: {atomic_symbol}")
         atomic_symbols.append(atomic_symbol.strip())
+    if len(atomic_symbols) == 0:
+        raise InvalidFileException("atomic symbols not found")
     return atomic_symbols
 
 
-def _parse_positions(structure_varray: Element) -> NDArray[np.float64]:
+def _parse_positions(
+    structure_varray: Element, num_atoms: int
+) -> NDArray[np.float64]:
     """Parse atomic fractional positions from a vasprun.xml Element.
 
     This function reads the positions from the initial structure.
@@ -60,13 +97,7 @@ def _parse_positions(structure_varray: Element) -> NDArray[np.float64]:
     ------
     InvalidFileException
     """
-    positions = []
-    for child in structure_varray:
-        text = child.text
-        if text is None:
-            raise InvalidFileException("varray child text not found")
-        positions.append([float(i) for i in text.split()])
-    return np.array(positions)
+    return _parse_varray(structure_varray, num_atoms)
 
 
 def _parse_polarizability(root: Element) -> NDArray[np.float64]:
@@ -82,13 +113,7 @@ def _parse_polarizability(root: Element) -> NDArray[np.float64]:
     polarizability_element = root.find("./calculation/varray[@name='dielectric_dft']")
     if polarizability_element is None:
         raise InvalidFileException("polarizability not found")
-    polarizability = []
-    for child in polarizability_element:
-        text = child.text
-        if text is None:
-            raise InvalidFileException("varray child text not found")
-        polarizability.append([float(i) for i in text.split()])
-    return np.array(polarizability)
+    return _parse_varray(polarizability_element, 3)
 
 
 def _parse_lattice(root: Element) -> NDArray[np.float64]:
@@ -103,14 +128,7 @@ def _parse_lattice(root: Element) -> NDArray[np.float64]:
     )
     if varray_element is None:
         raise InvalidFileException("lattice not found")
-
-    lattice = []
-    for child in varray_element:
-        text = child.text
-        if text is None:
-            raise InvalidFileException("varray child text not found")
-        lattice.append([float(i) for i in text.split()])
-    return np.array(lattice)
+    return _parse_varray(varray_element, 3)
 
 
 def read_positions_and_polarizability(
@@ -145,7 +163,7 @@ def read_positions_and_polarizability(
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        positions = _parse_positions(structure_varray)
+        positions = _parse_positions(structure_varray, len(_parse_atomic_symbols(root)))
         polarizability = _parse_polarizability(root)
         return positions, polarizability
 
@@ -187,7 +205,7 @@ def read_structure_and_polarizability(
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        positions = _parse_positions(structure_varray)
+        positions = _parse_positions(structure_varray, len(atomic_symbols))
         polarizability = _parse_polarizability(root)
         return lattice, atomic_numbers, positions, polarizability
 
@@ -242,7 +260,7 @@ def read_positions(filepath: str | Path) -> NDArray[np.float64]:
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        positions = _parse_positions(structure_varray)
+        positions = _parse_positions(structure_varray, len(_parse_atomic_symbols(root)))
         return positions
 
 
@@ -275,7 +293,7 @@ def read_ref_structure(filepath: str | Path) -> ReferenceStructure:
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        positions = _parse_positions(structure_varray)
+        positions = _parse_positions(structure_varray, len(atomic_symbols))
         return ReferenceStructure(atomic_numbers, lattice, positions)
 
 
@@ -289,10 +307,10 @@ def _parse_timestep(root: Element) -> float:
     element = root.find("./parameters/separator[@name='ionic']/i/[@name='POTIM']")
     if element is None:
         raise InvalidFileException("timestep not found")
-    text = element.text
-    if text is None:
-        raise InvalidFileException("potim element has no text")
-    return float(text.strip())
+    timestep = _parse_floats(element)
+    if timestep.shape != (1,):
+        raise InvalidFileException("timestep could not be parsed")
+    return float(timestep[0])
 
 
 def read_trajectory(filepath: str | Path) -> Trajectory:
@@ -321,7 +339,8 @@ def read_trajectory(filepath: str | Path) -> Trajectory:
             structure_varray = structure.find("varray")
             if structure_varray is None:
                 raise InvalidFileException("structure varray not found")
-            positions_ts.append(_parse_positions(structure_varray))
+            num_atoms = len(_parse_atomic_symbols(root))
+            positions_ts.append(_parse_positions(structure_varray, num_atoms))
         if len(positions_ts) == 0:
             raise InvalidFileException("no trajectory found")
 
@@ -340,9 +359,7 @@ def _parse_eigenvalues(root: Element) -> NDArray[np.float64]:
     element = root.find("./calculation/dynmat/v[@name='eigenvalues']")
     if element is None:
         raise InvalidFileException("eigenvalues not found")
-    if element.text is None:
-        raise InvalidFileException("eigenvalues has no text")
-    eigenvalues = np.array([float(i) for i in element.text.split()])
+    eigenvalues = _parse_floats(element)
     # The dynamical matrix is defined with the opposite sign, so real modes have
     # negative eigenvalues. Imaginary modes are given negative wavenumbers.
     signs = np.sign(-eigenvalues)
@@ -364,15 +381,9 @@ def _parse_eigenvectors(root: Element) -> NDArray[np.float64]:
     if element is None:
         raise InvalidFileException("eigenvectors not found")
 
-    eigenvectors = []
-    for v in element:
-        if v.text is None:
-            raise InvalidFileException("eigenvector element has no text")
-        cart_eigenvector = np.array([float(i) for i in v.text.split()])
-        cart_eigenvector = cart_eigenvector.reshape((num_atoms, 3))
-        eigenvectors.append(cart_eigenvector @ np.linalg.inv(lattice))
-
-    return np.array(eigenvectors)
+    cart_eigenvectors = _parse_varray(element, len(element), 3 * num_atoms)
+    cart_eigenvectors = cart_eigenvectors.reshape((-1, num_atoms, 3))
+    return cart_eigenvectors @ np.linalg.inv(lattice)
 
 
 def read_phonons(filepath: str | Path) -> Phonons:
@@ -402,10 +413,12 @@ def read_phonons(filepath: str | Path) -> Phonons:
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        ref_positions = _parse_positions(structure_varray)
+        ref_positions = _parse_positions(structure_varray, len(atomic_symbols))
 
         wavenumbers = _parse_eigenvalues(root)
         eigenvectors = _parse_eigenvectors(root)
+        if len(wavenumbers) != len(eigenvectors):
+            raise InvalidFileException("eigenvalues do not match eigenvectors")
         displacements = eigenvectors / np.sqrt(atomic_weights)[:, np.newaxis]
 
         return Phonons(ref_positions, wavenumbers, displacements)
-- 
2.43.0


From 3b8c132b28cf260dfe0e47e7a2765bddc912f573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 22/41] fix: reject structures with the wrong number of atoms
 in interpolation models

---
 ramannoodle/pmodel/_interpolation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 9a67f54..a4f97fd 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -212,6 +212,9 @@ class InterpolationModel(PolarizabilityModel):
         """
         if self._is_dummy_model and len(self._cart_basis_vectors) == 0:
             raise UserError("dummy model cannot calculate polarizabilities")
+        verify_ndarray_shape(
+            "positions", positions_batch, (None, self._ref_structure.num_atoms, 3)
+        )
         try:
             delta_polarizabilities: NDArray[np.float64] = np.zeros(
                 (positions_batch.shape[0], 3, 3)
@@ -569,6 +572,9 @@ class InterpolationModel(PolarizabilityModel):
         for i, structure in enumerate(pymatgen_structures):
             positions = pymatgen_io.get_positions(structure)
             try:
+                verify_ndarray_shape(
+                    "positions", positions, (self._ref_structure.num_atoms, 3)
+                )
                 displacement = calc_displacement(
                     self._ref_structure.positions,
                     positions,
@@ -679,6 +685,9 @@ class InterpolationModel(PolarizabilityModel):
                 polarizability = np.zeros((3, 3))
 
             try:
+                verify_ndarray_shape(
+                    "positions", positions, (self._ref_structure.num_atoms, 3)
+                )
                 displacement = calc_displacement(
                     self._ref_structure.positions,
                     positions,
-- 
2.43.0


From 2e856d36de50ec4a69fe807a5f6238fdfde1c422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 23/41] fix: convert displacements of pymatgen trajectories
 into positions

---
 ramannoodle/io/pymatgen.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/io/pymatgen.py b/ramannoodle/io/pymatgen.py
index 81d0354..0beb4db 100644
--- a/ramannoodle/io/pymatgen.py
+++ b/ramannoodle/io/pymatgen.py
@@ -185,4 +185,9 @@ def construct_trajectory(
             pymatgen_trajectory,
             "pymatgen.core.trajectory.Trajectory",
         ) from exc
-    return Trajectory(pymatgen_trajectory.coords, timestep)
+    coords = pymatgen_trajectory.coords
+    if pymatgen_trajectory.coords_are_displacement:
+        if pymatgen_trajectory.base_positions is None:
+            raise ValueError("pymatgen_trajectory must have base positions")
+        coords = pymatgen_trajectory.base_positions + np.cumsum(coords, axis=0)
+    return Trajectory(coords, timestep)
-- 
2.43.0


From 59179d59dba40521ef54b211037027a1665fc638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 24/41] fix: only allow two amplitudes per atomic Raman tensor

---
 ramannoodle/pmodel/_art.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/_art.py b/ramannoodle/pmodel/_art.py
index 8e5752d..fbe9dd7 100644
--- a/ramannoodle/pmodel/_art.py
+++ b/ramannoodle/pmodel/_art.py
@@ -9,7 +9,7 @@ from numpy.typing import NDArray
 from tabulate import tabulate
 
 from ramannoodle.constants import ANSICOLORS
-from ramannoodle.pmodel._interpolation import InterpolationModel
+from ramannoodle.pmodel._interpolation import InterpolationModel, find_duplicates
 from ramannoodle.exceptions import (
     get_type_error,
     get_shape_error,
@@ -134,6 +134,33 @@ class ARTModel(InterpolationModel):
             "instead"
         )
 
+    def _construct_and_add_interpolations(
+        self,
+        basis_vectors_to_add: list[NDArray[np.float64]],
+        interpolation_xs: list[list[float]],
+        interpolation_ys: list[list[NDArray[np.float64]]],
+        interpolation_order: int,
+    ) -> None:
+        """Construct interpolations and add them to the model.
+
+        Raises
+        ------
+        InvalidDOFException
+        """
+        for interpolation_x in interpolation_xs:
+            num_amplitudes = len(interpolation_x)
+            # Duplicate amplitudes have a more specific error
+            if num_amplitudes > 2 and find_duplicates(interpolation_x) is None:
+                raise InvalidDOFException(
+                    f"wrong number of amplitudes: {num_amplitudes} != 2"
+                )
+        super()._construct_and_add_interpolations(
+            basis_vectors_to_add,
+            interpolation_xs,
+            interpolation_ys,
+            interpolation_order,
+        )
+
     def add_art(
         self,
         atom_index: int,
-- 
2.43.0


From 6d07404c3d8693c411de4cd90d576e22013a202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 25/41] fix: verify shape of polarizabilities in
 add_art_from_pymatgen

---
 ramannoodle/pmodel/_art.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ramannoodle/pmodel/_art.py b/ramannoodle/pmodel/_art.py
index fbe9dd7..192e222 100644
--- a/ramannoodle/pmodel/_art.py
+++ b/ramannoodle/pmodel/_art.py
@@ -306,6 +306,11 @@ class ARTModel(InterpolationModel):
         displacements, amplitudes = super()._get_displacement_amplitudes_pymatgen(
             pymatgen_structures
         )
+        if self._is_dummy_model:
+            polarizabilities = np.zeros((len(amplitudes), 3, 3))
+        verify_ndarray_shape(
+            "polarizabilities", polarizabilities, (len(amplitudes), 3, 3)
+        )
 
         # Check whether only one atom is displaced.
         _displacement = displacements[0].copy()
-- 
2.43.0


From 40f8085b6a1c1342e0f6b5c5fa275f62e7695d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 26/41] fix: make atom types independent of atom order in
 PotGNN

---
 ramannoodle/pmodel/torch/_gnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/torch/_gnn.py b/ramannoodle/pmodel/torch/_gnn.py
index 802d11b..51ef5be 100644
--- a/ramannoodle/pmodel/torch/_gnn.py
+++ b/ramannoodle/pmodel/torch/_gnn.py
@@ -499,7 +499,7 @@ class PotGNN(
         )
 
         # Atom types map
-        unique_atomic_numbers = set(ref_structure.atomic_numbers)
+        unique_atomic_numbers = sorted(set(ref_structure.atomic_numbers))
         self._num_atom_types = len(unique_atomic_numbers)
         self._atom_type_map = (torch.zeros(119) - 1).type(torch.int)
         for atom_type, atomic_number in enumerate(unique_atomic_numbers):
-- 
2.43.0


From 95f4e1cf4caff00989d8e15d92a8eac77bcec71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 27/41] fix: discard stale gradients at the start of a training
 epoch

---
 ramannoodle/pmodel/torch/_train.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ramannoodle/pmodel/torch/_train.py b/ramannoodle/pmodel/torch/_train.py
index 5af8808..ed00489 100644
--- a/ramannoodle/pmodel/torch/_train.py
+++ b/ramannoodle/pmodel/torch/_train.py
@@ -61,6 +61,7 @@ def train_single_epoch(
     )
 
     model.train()
+    optimizer.zero_grad()  # discard gradients calculated before this epoch
     train_losses = []
     for lattice, atomic_numbers, position, polarizability in train_loader:
         out = model.forward(
-- 
2.43.0


From dfc0120bf3c893633915e37301c730545fe2993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 28/41] fix: keep constant polarizability components usable for
 training

---
 ramannoodle/dataset/torch/_dataset.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/dataset/torch/_dataset.py b/ramannoodle/dataset/torch/_dataset.py
index 4e42ebd..264d2aa 100644
--- a/ramannoodle/dataset/torch/_dataset.py
+++ b/ramannoodle/dataset/torch/_dataset.py
@@ -18,6 +18,11 @@ except ModuleNotFoundError as exc:
     raise get_torch_missing_error() from exc
 
 
+def _get_safe_divisor(stddev: Tensor) -> Tensor:
+    """Return standard deviation with zeros (constant components) replaced by ones."""
+    return torch.where(stddev == 0, torch.ones_like(stddev), stddev)
+
+
 def _scale_and_flatten_polarizabilities(
     polarizabilities: Tensor,
     scale_mode: str,
@@ -45,9 +50,10 @@ def _scale_and_flatten_polarizabilities(
     mean = polarizabilities.mean(0, keepdim=True)
     stddev = polarizabilities.std(0, unbiased=False, keepdim=True)
     if scale_mode == "standard":
-        polarizabilities = (polarizabilities - mean) / stddev
+        polarizabilities = (polarizabilities - mean) / _get_safe_divisor(stddev)
     elif scale_mode == "stddev":
-        polarizabilities = (polarizabilities - mean) / stddev + mean
+        polarizabilities = (polarizabilities - mean) / _get_safe_divisor(stddev)
+        polarizabilities = polarizabilities + mean
     elif scale_mode != "none":
         raise ValueError(f"unsupported scale mode: {scale_mode}")
 
@@ -211,7 +217,7 @@ class PolarizabilityDataset(Dataset[tuple[Tensor, Tensor, Tensor, Tensor]]):
 
         scaled = self._polarizabilities.detach().clone()
         scaled = scaled - torch.tensor(mean)
-        scaled /= torch.tensor(stddev)
+        scaled /= _get_safe_divisor(torch.tensor(stddev))
         self._scaled_polarizabilities = (
             rn_torch_utils.polarizability_tensors_to_vectors(scaled)
         ).type(torch.get_default_dtype())
-- 
2.43.0


From 355eba1a3c54e484b0c08dac3ff19d8f6e49f901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 29/41] fix: reject a laser wavelength of zero

---
 ramannoodle/spectrum/_raman.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/spectrum/_raman.py b/ramannoodle/spectrum/_raman.py
index 7b5ac50..f8f68fd 100644
--- a/ramannoodle/spectrum/_raman.py
+++ b/ramannoodle/spectrum/_raman.py
@@ -40,6 +40,16 @@ def get_bose_einstein_correction(
         raise get_type_error("wavenumbers", wavenumbers, "ndarray") from exc
 
 
+def _get_laser_wavenumber(laser_wavelength: float) -> float:
+    """Convert laser wavelength (nm) into wavenumber (cm^-1)."""
+    try:
+        if laser_wavelength <= 0:
+            raise ValueError(f"invalid laser_wavelength: {laser_wavelength} <= 0")
+    except TypeError as exc:
+        raise get_type_error("laser_wavelength", laser_wavelength, "float") from exc
+    return 10000000 / laser_wavelength
+
+
 def get_laser_correction(
     wavenumbers: NDArray[np.float64], laser_wavenumber: float
 ) -> NDArray[np.float64]:
@@ -182,7 +192,7 @@ class PhononRamanSpectrum(RamanSpectrum):
         intensities = 45.0 * alpha_squared + 7.0 * gamma_squared
 
         if laser_correction:
-            laser_wavenumber = 10000000 / laser_wavelength
+            laser_wavenumber = _get_laser_wavenumber(laser_wavelength)
             intensities *= get_laser_correction(
                 self._phonon_wavenumbers, laser_wavenumber
             )
@@ -301,7 +311,7 @@ class MDRamanSpectrum(RamanSpectrum):
         wavenumbers = wavenumbers[1:]
 
         if laser_correction:
-            laser_wavenumber = 10000000 / laser_wavelength
+            laser_wavenumber = _get_laser_wavenumber(laser_wavelength)
             intensities *= get_laser_correction(wavenumbers, laser_wavenumber)
         if bose_einstein_correction:
             intensities *= get_bose_einstein_correction(wavenumbers, temperature)
-- 
2.43.0


From 4dad767798782a25f4d8dfaadf07294dd4cb7b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 30/41] fix: read OUTCAR numbers without separating blanks

---
 ramannoodle/io/vasp/outcar.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index ad84feb..63047dc 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -1,5 +1,6 @@
 """Functions for interacting with VASP OUTCAR files."""
 
+import re
 from typing import TextIO
 from pathlib import Path
 import numpy as np
@@ -98,6 +99,14 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
         ) from exc
 
 
+def _split_outcar_line(line: str) -> list[str]:
+    """Split a line of numbers in a VASP OUTCAR file.
+
+    Numbers have fixed widths, so negative ones might directly follow their neighbors.
+    """
+    return re.sub(r"(?<=\d)-(?=\d)", " -", line).split()
+
+
 def _get_coordinates_from_outcar_line(line: str) -> list[float]:
     """Read first three numbers from a line in a VASP OUTCAR file.
 
@@ -128,7 +137,7 @@ def _read_eigenvector(
                 break
             if "X" in line:
                 continue
-            vector = [float(item) for item in line.split()[3:]]
+            vector = [float(item) for item in _split_outcar_line(line)[3:]]
             vector = vector @ np.linalg.inv(lattice)
             eigenvector.append(vector)
         if len(eigenvector) != num_atoms:
@@ -230,7 +239,7 @@ def _get_lattice_vector_from_outcar_line(line: str) -> NDArray[np.float64]:
     ValueError
     """
     try:
-        return np.array([float(item) for item in line.split()[0:3]])
+        return np.array([float(item) for item in _split_outcar_line(line)[0:3]])
     except TypeError as exc:
         raise TypeError("line is not a str") from exc
     except IndexError as exc:
-- 
2.43.0


From ac335aab78307bf2b506eb643527e9f0c0bfb8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 31/41] fix: look up configurations in trajectories

---
 ramannoodle/dynamics/_trajectory.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/dynamics/_trajectory.py b/ramannoodle/dynamics/_trajectory.py
index 9c88c9e..127c62e 100644
--- a/ramannoodle/dynamics/_trajectory.py
+++ b/ramannoodle/dynamics/_trajectory.py
@@ -1,7 +1,7 @@
 """Molecular dynamics trajectory."""
 
 from collections.abc import Sequence
-from typing import overload
+from typing import Any, overload
 
 import numpy as np
 from numpy.typing import NDArray
@@ -107,3 +107,27 @@ class Trajectory(Dynamics, Sequence[NDArray[np.float64]]):
             if "out of bounds" in str(exc):
                 raise IndexError("trajectory index out of bounds") from exc
             raise exc
+
+    # Sequence's implementations rely on the truth value of "==", which is not defined
+    # for arrays.
+    def __contains__(self, value: object) -> bool:
+        """Check if trajectory contains positions."""
+        return any(np.array_equal(positions, value) for positions in self)
+
+    def index(self, value: Any, start: int = 0, stop: int | None = None) -> int:
+        """Get index of the first configuration with given positions.
+
+        Raises
+        ------
+        ValueError
+            Raised when no such configuration exists.
+
+        """
+        for i in range(*slice(start, stop).indices(len(self))):
+            if np.array_equal(self[i], value):
+                return i
+        raise ValueError("positions are not in trajectory")
+
+    def count(self, value: Any) -> int:
+        """Count configurations with given positions."""
+        return sum(1 for positions in self if np.array_equal(positions, value))
-- 
2.43.0


From 3f6632feebddf5fa6be722beffae53dc4841da03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 32/41] fix: return copies of symmetry operations

---
 ramannoodle/structure/_reference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 2d5ceb4..5a16ddd 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -258,7 +258,7 @@ class ReferenceStructure:
                 result.append(
                     {
                         "displacements": [candidate_displacement],
-                        "transformations": [(rotation, translation)],
+                        "transformations": [(rotation.copy(), translation.copy())],
                     }
                 )
                 orthogonal_displacements.append(cart_candidate_displacement)
@@ -285,7 +285,7 @@ class ReferenceStructure:
                             candidate_displacement
                         )
                         result[collinear_result]["transformations"].append(
-                            (rotation, translation)
+                            (rotation.copy(), translation.copy())
                         )
 
         return result
-- 
2.43.0


From 0d5b5bc4c0d13de9730d3e1e472aa3142e9a3d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 33/41] fix: return copies of specified ART directions

---
 ramannoodle/pmodel/_art.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/_art.py b/ramannoodle/pmodel/_art.py
index 192e222..c932203 100644
--- a/ramannoodle/pmodel/_art.py
+++ b/ramannoodle/pmodel/_art.py
@@ -400,7 +400,7 @@ class ARTModel(InterpolationModel):
         """Return specified art cartesian direction vectors for an atom."""
         indexes = self.get_dof_indexes(atom_index)
         cart_directions = [
-            self._cart_basis_vectors[index][atom_index] for index in indexes
+            self._cart_basis_vectors[index][atom_index].copy() for index in indexes
         ]
         return cart_directions
 
-- 
2.43.0


From 4e888c88a01462989f3cf8581a1e94d4a2632f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 34/41] fix: report validation loss and variance of the whole
 validation set

---
 ramannoodle/pmodel/torch/_train.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/ramannoodle/pmodel/torch/_train.py b/ramannoodle/pmodel/torch/_train.py
index ed00489..714471f 100644
--- a/ramannoodle/pmodel/torch/_train.py
+++ b/ramannoodle/pmodel/torch/_train.py
@@ -45,7 +45,7 @@ def train_single_epoch(
     :
         0.  mean training loss
         #.  mean validation loss
-        #.  mean variance of predictions on validation set -- Array with shape [6,]
+        #.  variance of predictions on validation set -- Array with shape [6,]
 
     """
     default_device = torch.get_default_device()
@@ -77,20 +77,19 @@ def train_single_epoch(
         optimizer.zero_grad()
 
     model.eval()
-    validation_losses = []
-    validation_vars = []
+    # Statistics cover the whole set: batches may have different sizes.
+    outs = []
+    polarizabilities = []
     for lattice, atomic_numbers, position, polarizability in validation_loader:
         out = model.forward(
             lattice.to(default_device),
             atomic_numbers.to(default_device),
             position.to(default_device),
         )
-        loss = loss_function(out, polarizability)
-        validation_losses.append(float(loss))
-        validation_vars.append(torch.var(out, dim=0).detach().cpu().numpy().copy())
+        outs.append(out.detach())
+        polarizabilities.append(polarizability)
+    validation_out = torch.cat(outs)
+    validation_loss = loss_function(validation_out, torch.cat(polarizabilities))
+    validation_var = torch.var(validation_out, dim=0).cpu().numpy().copy()
 
-    return (
-        float(np.mean(train_losses)),
-        float(np.mean(validation_losses)),
-        np.mean(validation_vars, axis=0),
-    )
+    return float(np.mean(train_losses)), float(validation_loss), validation_var
-- 
2.43.0


From c715c62d7c8c5116d265b7aa813e52f9de36f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:38 +0000
Subject: [PATCH 35/41] fix: finite edge rotations for bonds along -x up to
 rounding

---
 ramannoodle/pmodel/torch/_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/pmodel/torch/_utils.py b/ramannoodle/pmodel/torch/_utils.py
index ef3cc49..07a2c07 100644
--- a/ramannoodle/pmodel/torch/_utils.py
+++ b/ramannoodle/pmodel/torch/_utils.py
@@ -59,8 +59,9 @@ def get_rotations(targets: Tensor) -> Tensor:
     b1 = (1 - c) / (s**2)
     rotations += a1 * b1[:, None, None]
 
-    # a==b implies s==0, which implies rotation should be identity/
-    rotations[s == 0] = torch.eye(3)
+    # a==b implies s==0, which implies rotation should be identity. s**2 (rather than
+    # s) is tested so that it cannot underflow and give 0/0 when a and -b almost agree.
+    rotations[s**2 < torch.finfo(s.dtype).tiny] = torch.eye(3)
 
     return rotations
 
-- 
2.43.0


From 0993f2c08dbf0b353f6def11e38aedd548479f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 36/41] fix: OUTCAR eigenvalues without their f or f/i= mark
 gave the energy in meV as wavenumber

---
 ramannoodle/io/vasp/outcar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index 63047dc..460ff2e 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -328,8 +328,10 @@ def read_phonons(filepath: str | Path) -> Phonons:
                     wavenumbers.append(
                         -float(line.split()[6])  # set negative wavenumber
                     )
-                else:
+                elif line.split()[1:3] == ["f", "="]:
                     wavenumbers.append(float(line.split()[7]))
+                else:  # not known whether complex
+                    raise ValueError(f"unexpected eigenvalue: {line}")
             except (
                 NoMatchingLineFoundException,
                 TypeError,
-- 
2.43.0


From 375f74933ed5727eb41af1b1f161240d874f309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:27 +0000
Subject: [PATCH 37/41] fix: PotGNN predicted NaN for structures without edges
 (single atoms, cutoffs below all distances): mean over zero edges

---
 ramannoodle/pmodel/torch/_gnn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/torch/_gnn.py b/ramannoodle/pmodel/torch/_gnn.py
index 51ef5be..319ddde 100644
--- a/ramannoodle/pmodel/torch/_gnn.py
+++ b/ramannoodle/pmodel/torch/_gnn.py
@@ -661,7 +661,8 @@ class PotGNN(
             mask = (edge_index[0:1] == structure_i).T
             count = torch.sum(mask)
             polarizability[structure_i] = torch.sum(edge_polarizability * mask, dim=0)
-            polarizability[structure_i] /= count
+            # Structures without edges do not deviate from the mean polarizability.
+            polarizability[structure_i] /= torch.clamp(count, min=1)
         return polarizability
 
     def calc_polarizabilities(
-- 
2.43.0


From caec65a1be6b89f4fae031f6ea8787ed546cf115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:45 +0000
Subject: [PATCH 38/41] fix: readers refuse numbers that are not finite, which
 crashed the symmetry search

---
 ramannoodle/io/_utils.py       | 34 ++++++++++++++++++++++++++++++++++
 ramannoodle/io/vasp/outcar.py  | 16 +++++++++-------
 ramannoodle/io/vasp/poscar.py  |  8 ++++----
 ramannoodle/io/vasp/vasprun.py |  4 ++--
 4 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/ramannoodle/io/_utils.py b/ramannoodle/io/_utils.py
index 5d39667..e64b282 100644
--- a/ramannoodle/io/_utils.py
+++ b/ramannoodle/io/_utils.py
@@ -1,5 +1,6 @@
 """Universal IO utility functions."""
 
+import math
 from typing import TextIO, Callable
 from pathlib import Path
 
@@ -33,6 +34,39 @@ def _skip_file_until_line_contains(file: TextIO, content: str) -> str:
     raise NoMatchingLineFoundException(content)
 
 
+def parse_float(text: str) -> float:
+    """Parse a finite number.
+
+    Unlike Python's float, this refuses nan, inf, underscores, and non-ASCII digits.
+    Calculation outputs contain these only if something went wrong.
+
+    Raises
+    ------
+    ValueError
+
+    :meta private:
+    """
+    value = float(text)
+    if not math.isfinite(value) or "_" in text or not text.isascii():
+        raise ValueError(f"invalid number: {text}")
+    return value
+
+
+def parse_int(text: str) -> int:
+    """Parse an integer, see :func:`parse_float`.
+
+    Raises
+    ------
+    ValueError
+
+    :meta private:
+    """
+    value = int(text)
+    if "_" in text or not text.isascii():
+        raise ValueError(f"invalid integer: {text}")
+    return value
+
+
 def pathify(filepath: str | Path) -> Path:
     """Convert filepath to Path.
 
diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index 460ff2e..75eb944 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -10,6 +10,8 @@ from ramannoodle.io._utils import (
     _skip_file_until_line_contains,
     pathify,
     _read_polarizability_dataset,
+    parse_float,
+    parse_int,
 )
 from ramannoodle.exceptions import InvalidFileException, NoMatchingLineFoundException
 from ramannoodle.constants import ATOMIC_WEIGHTS, ATOMIC_NUMBERS
@@ -78,7 +80,7 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
     # Then get atom numbers
     try:
         line = _skip_file_until_line_contains(file, "ions per type")
-        atomic_numbers = [int(item) for item in line.split()[4:]]
+        atomic_numbers = [parse_int(item) for item in line.split()[4:]]
         # Some versions of VASP write the first few POTCAR lines twice.
         num_types = len(atomic_numbers)
         repeated_symbols = potcar_symbols[num_types:]
@@ -114,7 +116,7 @@ def _get_coordinates_from_outcar_line(line: str) -> list[float]:
     ------
     ValueError
     """
-    coordinates = [float(item) for item in line.split()[0:3]]
+    coordinates = [parse_float(item) for item in line.split()[0:3]]
     if len(coordinates) != 3:
         raise ValueError(f"line does not have three numbers: {line}")
     return coordinates
@@ -137,7 +139,7 @@ def _read_eigenvector(
                 break
             if "X" in line:
                 continue
-            vector = [float(item) for item in _split_outcar_line(line)[3:]]
+            vector = [parse_float(item) for item in _split_outcar_line(line)[3:]]
             vector = vector @ np.linalg.inv(lattice)
             eigenvector.append(vector)
         if len(eigenvector) != num_atoms:
@@ -239,7 +241,7 @@ def _get_lattice_vector_from_outcar_line(line: str) -> NDArray[np.float64]:
     ValueError
     """
     try:
-        return np.array([float(item) for item in _split_outcar_line(line)[0:3]])
+        return np.array([parse_float(item) for item in _split_outcar_line(line)[0:3]])
     except TypeError as exc:
         raise TypeError("line is not a str") from exc
     except IndexError as exc:
@@ -326,10 +328,10 @@ def read_phonons(filepath: str | Path) -> Phonons:
                 line = _skip_file_until_line_contains(file, "cm-1")
                 if "f/i" in line:  # if complex
                     wavenumbers.append(
-                        -float(line.split()[6])  # set negative wavenumber
+                        -parse_float(line.split()[6])  # set negative wavenumber
                     )
                 elif line.split()[1:3] == ["f", "="]:
-                    wavenumbers.append(float(line.split()[7]))
+                    wavenumbers.append(parse_float(line.split()[7]))
                 else:  # not known whether complex
                     raise ValueError(f"unexpected eigenvalue: {line}")
             except (
@@ -535,7 +537,7 @@ def _read_timestep(file: TextIO) -> float:
     except NoMatchingLineFoundException as exc:
         raise InvalidFileException("timestep not found") from exc
     try:
-        return float(line.split()[2])
+        return parse_float(line.split()[2])
     except (IndexError, TypeError, ValueError) as exc:
         raise InvalidFileException(f"timestep could not be parsed: {line}") from exc
 
diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index 699e62e..679ab12 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -6,7 +6,7 @@ from typing import TextIO
 import numpy as np
 from numpy.typing import NDArray
 
-from ramannoodle.io._utils import verify_structure, pathify
+from ramannoodle.io._utils import verify_structure, pathify, parse_float, parse_int
 from ramannoodle.exceptions import InvalidFileException
 from ramannoodle.constants import ATOM_SYMBOLS, ATOMIC_NUMBERS
 from ramannoodle.structure._reference import ReferenceStructure
@@ -31,7 +31,7 @@ def _read_lattice(file: TextIO) -> tuple[NDArray[np.float64], float]:
     try:
         file.readline()
         line = file.readline()
-        scale_factor = float(line)
+        scale_factor = parse_float(line)
         if scale_factor == 0:
             raise ValueError("scale factor is zero")
     except ValueError as exc:
@@ -80,7 +80,7 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
     int_counts = []
     for count in str_counts:
         try:
-            int_counts.append(int(count))
+            int_counts.append(parse_int(count))
             if int_counts[-1] < 1:
                 raise ValueError("count must be positive")
         except ValueError as err:
@@ -119,7 +119,7 @@ def _read_positions(
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            position = [float(item) for item in line.split()[0:3]]
+            position = [parse_float(item) for item in line.split()[0:3]]
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"positions could not be parsed: {line}"
diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index f0f0b93..fbfac40 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -9,7 +9,7 @@ from defusedxml.common import DefusedXmlException
 import numpy as np
 from numpy.typing import NDArray
 
-from ramannoodle.io._utils import pathify, _read_polarizability_dataset
+from ramannoodle.io._utils import pathify, parse_float, _read_polarizability_dataset
 from ramannoodle.exceptions import InvalidFileException, UserError
 from ramannoodle.constants import ATOMIC_WEIGHTS, ATOMIC_NUMBERS
 from ramannoodle.dynamics._phonon import Phonons
@@ -41,7 +41,7 @@ def _parse_floats(element: Element) -> NDArray[np.float64]:
     if element.text is None:
         raise InvalidFileException(f"{element.tag} element has no text")
     try:
-        return np.array([float(i) for i in element.text.split()])
+        return np.array([parse_float(i) for i in element.text.split()])
     except ValueError as exc:
         raise InvalidFileException(f"could not be parsed: {element.text}") from exc
 
-- 
2.43.0


From 30881a5211492d88918696a7b5eac0532be16068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:08 +0000
Subject: [PATCH 39/41] fix: readers refuse linearly dependent lattice vectors

---
 ramannoodle/io/_utils.py       | 14 ++++++++++++++
 ramannoodle/io/vasp/outcar.py  |  5 +++++
 ramannoodle/io/vasp/poscar.py  | 12 +++++++++++-
 ramannoodle/io/vasp/vasprun.py | 14 ++++++++++++--
 4 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/io/_utils.py b/ramannoodle/io/_utils.py
index e64b282..fe7cd2d 100644
--- a/ramannoodle/io/_utils.py
+++ b/ramannoodle/io/_utils.py
@@ -93,6 +93,20 @@ def pathify_as_list(filepaths: str | Path | list[str] | list[Path]) -> list[Path
     return [pathify(filepaths)]
 
 
+def verify_lattice(lattice: NDArray[np.float64]) -> None:
+    """Verify that lattice vectors span a cell.
+
+    Raises
+    ------
+    ValueError
+
+    :meta private:
+    """
+    verify_ndarray_shape("lattice", lattice, (3, 3))
+    if np.linalg.matrix_rank(lattice) < 3:
+        raise ValueError("lattice vectors are linearly dependent")
+
+
 def verify_structure(
     lattice: NDArray[np.float64],
     atomic_numbers: list[int],
diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index 75eb944..fbf3da0 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -12,6 +12,7 @@ from ramannoodle.io._utils import (
     _read_polarizability_dataset,
     parse_float,
     parse_int,
+    verify_lattice,
 )
 from ramannoodle.exceptions import InvalidFileException, NoMatchingLineFoundException
 from ramannoodle.constants import ATOMIC_WEIGHTS, ATOMIC_NUMBERS
@@ -279,6 +280,10 @@ def _read_lattice(file: TextIO) -> NDArray[np.float64]:
         if lattice[-1].shape != (3,):
             raise InvalidFileException(f"lattice could not be parsed: {line}")
 
+    try:
+        verify_lattice(np.array(lattice))
+    except ValueError as exc:
+        raise InvalidFileException("lattice vectors are not independent") from exc
     return np.array(lattice)
 
 
diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index 679ab12..79768c3 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -6,7 +6,13 @@ from typing import TextIO
 import numpy as np
 from numpy.typing import NDArray
 
-from ramannoodle.io._utils import verify_structure, pathify, parse_float, parse_int
+from ramannoodle.io._utils import (
+    verify_lattice,
+    verify_structure,
+    pathify,
+    parse_float,
+    parse_int,
+)
 from ramannoodle.exceptions import InvalidFileException
 from ramannoodle.constants import ATOM_SYMBOLS, ATOMIC_NUMBERS
 from ramannoodle.structure._reference import ReferenceStructure
@@ -47,6 +53,10 @@ def _read_lattice(file: TextIO) -> tuple[NDArray[np.float64], float]:
         if vector.shape != (3,):
             raise InvalidFileException(f"lattice could not be parsed: {line}")
         lattice.append(vector)
+    try:
+        verify_lattice(np.array(lattice))
+    except ValueError as exc:
+        raise InvalidFileException("lattice vectors are not independent") from exc
 
     if scale_factor < 0:  # negative scale factors specify the unit cell volume
         volume = np.abs(np.linalg.det(np.array(lattice)))
diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index fbfac40..3b45687 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -9,7 +9,12 @@ from defusedxml.common import DefusedXmlException
 import numpy as np
 from numpy.typing import NDArray
 
-from ramannoodle.io._utils import pathify, parse_float, _read_polarizability_dataset
+from ramannoodle.io._utils import (
+    pathify,
+    parse_float,
+    verify_lattice,
+    _read_polarizability_dataset,
+)
 from ramannoodle.exceptions import InvalidFileException, UserError
 from ramannoodle.constants import ATOMIC_WEIGHTS, ATOMIC_NUMBERS
 from ramannoodle.dynamics._phonon import Phonons
@@ -128,7 +133,12 @@ def _parse_lattice(root: Element) -> NDArray[np.float64]:
     )
     if varray_element is None:
         raise InvalidFileException("lattice not found")
-    return _parse_varray(varray_element, 3)
+    lattice = _parse_varray(varray_element, 3)
+    try:
+        verify_lattice(lattice)
+    except ValueError as exc:
+        raise InvalidFileException("lattice vectors are not independent") from exc
+    return lattice
 
 
 def read_positions_and_polarizability(
-- 
2.43.0


From 7742b31edc07293a4b02f62d9876c4f5939139e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:21 +0000
Subject: [PATCH 40/41] fix: writers refuse structures with numbers that are
 not finite

---
 ramannoodle/exceptions.py | 2 +-
 ramannoodle/io/_utils.py  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/exceptions.py b/ramannoodle/exceptions.py
index a18b272..a51aebe 100644
--- a/ramannoodle/exceptions.py
+++ b/ramannoodle/exceptions.py
@@ -130,7 +130,7 @@ def verify_positions(name: str, array: NDArray[Any]) -> None:
 
     """
     verify_ndarray_shape(name, array, (None, 3))
-    if (0 > array).any() or (array > 1.0).any():
+    if not ((0 <= array) & (array <= 1.0)).all():  # includes nan
         raise ValueError(f"{name} has coordinates that are not between 0 and 1")
 
 
diff --git a/ramannoodle/io/_utils.py b/ramannoodle/io/_utils.py
index fe7cd2d..6bcac4f 100644
--- a/ramannoodle/io/_utils.py
+++ b/ramannoodle/io/_utils.py
@@ -117,6 +117,8 @@ def verify_structure(
     :meta private:
     """
     verify_ndarray_shape("lattice", lattice, (3, 3))
+    if not np.isfinite(lattice).all():
+        raise ValueError("lattice has components that are not finite")
     verify_list_len("atomic_numbers", atomic_numbers, None)
     for atomic_number in atomic_numbers:
         if atomic_number not in ATOM_SYMBOLS.keys():
@@ -135,12 +137,14 @@ def verify_trajectory(
     :meta private:
     """
     verify_ndarray_shape("lattice", lattice, (3, 3))
+    if not np.isfinite(lattice).all():
+        raise ValueError("lattice has components that are not finite")
     verify_list_len("atomic_numbers", atomic_numbers, None)
     for atomic_number in atomic_numbers:
         if atomic_number not in ATOM_SYMBOLS.keys():
             raise ValueError(f"invalid atomic number: {atomic_number}")
     verify_ndarray_shape("positions_ts", positions_ts, (None, len(atomic_numbers), 3))
-    if (0 > positions_ts).any() or (positions_ts > 1.0).any():
+    if not ((0 <= positions_ts) & (positions_ts <= 1.0)).all():  # includes nan
         raise ValueError("positions_ts has coordinates that are not between 0 and 1")
 
 
-- 
2.43.0


From 7a35ad2e24b7b72c5a95938ef2ccc914a76a18d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:21 +0000
Subject: [PATCH 41/41] fix: reference structures that are not finite are
 refused instead of crashing

---
 ramannoodle/structure/_reference.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 5a16ddd..45db53c 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -136,6 +136,8 @@ class ReferenceStructure:
         verify_list_len("atomic_numbers", atomic_numbers, None)
         verify_ndarray_shape("lattice", lattice, (3, 3))
         verify_ndarray_shape("positions", positions, (len(atomic_numbers), 3))
+        if not (np.isfinite(lattice).all() and np.isfinite(positions).all()):
+            raise SymmetryException("Lattice and positions must be finite.")
 
         self._atomic_numbers = atomic_numbers
         self._lattice = lattice
-- 
2.43.0

