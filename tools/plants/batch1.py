"""Bugs planted in the first batch (see plant.py)."""

PRELUDE = '''import os
import sys
import warnings

import numpy as np

warnings.simplefilter("ignore")
SCRATCH = os.environ["SCRATCH"]


def expect(condition, what):
    if not condition:
        print("BROKEN:", what)
        sys.exit(1)


def rutile():
    """TiO2, P4_2/mnm."""
    u = 0.3053
    lattice = np.diag([4.6, 4.6, 2.96])
    positions = np.array([[0, 0, 0], [0.5, 0.5, 0.5], [u, u, 0], [1 - u, 1 - u, 0], [0.5 + u, 0.5 - u, 0.5], [0.5 - u, 0.5 + u, 0.5]])
    return [22, 22, 8, 8, 8, 8], lattice, positions


def triclinic(n=3):
    lattice = np.array([[4.1, 0.2, 0.1], [-0.7, 5.3, 0.4], [0.9, -0.6, 6.2]])
    positions = np.array([[0.03, 0.11, 0.27], [0.41, 0.62, 0.15], [0.77, 0.35, 0.71], [0.2, 0.84, 0.52], [0.63, 0.09, 0.44]])[:n]
    return [22, 8, 14, 16, 6][:n], lattice, positions


'''

BUGS = []


def bug(ident, prop, edits, needs, breaks, demo):
    BUGS.append({"id": ident, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


bug(
    "p02-regularised-inverse", "P02",
    [("structure/_reference.py", "        displacement = (cart_displacement) @ np.linalg.inv(self.lattice)\n", "        displacement = (cart_displacement) @ np.linalg.pinv(self.lattice, rcond=0.05)\n")],
    "a slab-like lattice whose longest axis is over 20 times its shortest singular value",
    "the shortest lattice directions are treated as singular, so Cartesian displacements along them convert to zero",
    '''from ramannoodle.structure import ReferenceStructure

ref = ReferenceStructure([6, 8], np.diag([2.5, 2.5, 70.0]), np.array([[0.1, 0.2, 0.3], [0.6, 0.1, 0.32]]))
d = np.array([[0.1, -0.05, 0.2], [0.02, 0.03, -0.04]])
back = ref.get_frac_displacement(d) @ ref.lattice
expect(np.allclose(back, d), f"{back}")
''',
)
bug(
    "p02-symbol-order", "P02",
    [("structure/_reference.py", "            for index, symbol in enumerate(symbols):\n                if symbol in atom_symbols:\n                    indexes.append(index)\n", "            for atom_symbol in atom_symbols:\n                for index, symbol in enumerate(symbols):\n                    if symbol == atom_symbol:\n                        indexes.append(index)\n")],
    "several element symbols asked for in an order other than that of the atoms, or one symbol twice",
    "atom indexes are grouped by the query and repeated for repeated symbols instead of being the atoms' indexes in order",
    '''from ramannoodle.structure import ReferenceStructure

numbers, lattice, positions = triclinic(5)
numbers = [22, 8, 22, 8, 6]
ref = ReferenceStructure(numbers, lattice, positions)
expect(ref.get_atom_indexes(["O", "Ti"]) == [0, 1, 2, 3], ref.get_atom_indexes(["O", "Ti"]))
expect(ref.get_atom_indexes(["C", "C"]) == [4], ref.get_atom_indexes(["C", "C"]))
''',
)
bug(
    "p03-loose-orthogonality", "P03",
    [("structure/_symmetry_utils.py", "        if not np.allclose(np.dot(vector_1.flatten(), vector_2.flatten()) + 1, 1):\n", "        if not np.isclose(\n            np.dot(vector_1.flatten(), vector_2.flatten()), 0, atol=1e-2\n        ):\n")],
    "a displacement whose symmetry images overlap by less than one percent",
    "images that are not orthogonal to each other are reported as separate degrees of freedom (and accepted by models)",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.exceptions import InvalidDOFException

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
model = InterpolationModel(ref, np.zeros((3, 3)))
a = np.zeros((3, 3))
a[0, 0] = 1.0
b = np.zeros((3, 3))
b[0] = [0.008, 1.0, 0.0]
pols = np.array([np.eye(3) * 0.1, -np.eye(3) * 0.1])
model.add_dof(a, np.array([0.1, -0.1]), pols, 1)
try:
    model.add_dof(b, np.array([0.1, -0.1]), pols, 1)
    ok = False
except InvalidDOFException:
    ok = True
expect(ok, "an overlapping degree of freedom was accepted")
''',
)
bug(
    "p04-sorted-paths", "P04",
    [("structure/_displace.py", '''    verify_list_len("filepaths", filepaths, len(position_list))

    for position, filepath in zip(position_list, filepaths):
        generic_io.write_structure(
            ref_structure.lattice,
            ref_structure.atomic_numbers,
            position,
            filepath,
            file_format,
            overwrite,
        )


def get_ast_displaced_positions(''', '''    verify_list_len("filepaths", filepaths, len(position_list))

    for position, filepath in zip(position_list, sorted(filepaths)):
        generic_io.write_structure(
            ref_structure.lattice,
            ref_structure.atomic_numbers,
            position,
            filepath,
            file_format,
            overwrite,
        )


def get_ast_displaced_positions(''')],
    "output paths that are not in alphabetical order, such as ten or more files numbered without padding",
    "the i-th file does not contain the i-th displaced structure",
    '''from ramannoodle.structure import ReferenceStructure, write_displaced_structures, get_displaced_positions
import ramannoodle.io.generic as io

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
d = np.zeros((3, 3))
d[1] = [1, 2, -1]
amplitudes = np.linspace(-0.2, 0.2, 12)
paths = [f"{SCRATCH}/d{i}.poscar" for i in range(12)]
write_displaced_structures(ref, d, amplitudes, paths, "poscar")
for path, want in zip(paths, get_displaced_positions(ref, d, amplitudes)):
    expect(np.allclose(io.read_positions(path, "poscar"), want, atol=1e-10), path)
''',
)
bug(
    "p04-skip-zero-amplitude", "P04",
    [("structure/_displace.py", '''    for amplitude in amplitudes:
        try:
            displacement''', '''    for amplitude in np.unique(amplitudes):
        try:
            displacement''')],
    "an amplitude list that is unsorted or repeats a value",
    "structures come out sorted by amplitude and without repetitions instead of one per amplitude in order",
    '''from ramannoodle.structure import ReferenceStructure, get_ast_displaced_positions

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
amplitudes = np.array([0.1, -0.1, 0.05, 0.05])
out = get_ast_displaced_positions(ref, 1, np.array([0.0, 1.0, 0.0]), amplitudes)
expect(len(out) == 4, f"{len(out)} structures for 4 amplitudes")
for a, x in zip(amplitudes, out):
    moved = ((x - positions + 0.5) % 1 - 0.5) @ lattice
    expect(np.allclose(moved[1], [0, a, 0]), f"{a}: {moved[1]}")
''',
)
bug(
    "p05-chunked-batches", "P05",
    [("pmodel/_interpolation.py", '''                amplitudes = np.einsum(
                    "i,ji", basis_vector.flatten(), cart_displacements
                )
                delta_polarizabilities += (1 - mask) * np.array(
                    interpolation(amplitudes), dtype="float64"
                )
''', '''                amplitudes = np.einsum(
                    "i,ji", basis_vector.flatten(), cart_displacements
                )
                # Long trajectories are evaluated in chunks to limit memory
                chunk = min(512, max(len(amplitudes), 1))
                for start in range(0, len(amplitudes) - chunk + 1, chunk):
                    stop = start + chunk
                    delta_polarizabilities[start:stop] += (1 - mask) * np.array(
                        interpolation(amplitudes[start:stop]), dtype="float64"
                    )
''')],
    "a batch of more than 512 configurations whose length is not a multiple of 512",
    "configurations after the last full chunk get the reference polarizability",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
model = InterpolationModel(ref, np.eye(3))
d = np.zeros((3, 3))
d[0, 0] = 1.0
model.add_dof(d, np.array([0.1, -0.1]), np.array([np.eye(3) * 1.1, np.eye(3) * 0.9]), 1)
batch = np.repeat(positions[None], 1300, axis=0)
batch[:, 0] += np.array([0.05, 0, 0]) @ np.linalg.inv(lattice)
out = model.calc_polarizabilities(batch)
expect(np.allclose(out, model.calc_polarizabilities(batch[:1])[0]), "configurations of a long batch differ from the same configuration alone")
''',
)
bug(
    "p07-basis-before-checks", "P07",
    [("pmodel/_interpolation.py", '''        interpolations_to_add: list[BSpline] = []
        for interpolation_x''', '''        self._cart_basis_vectors += basis_vectors_to_add
        interpolations_to_add: list[BSpline] = []
        for interpolation_x'''), ("pmodel/_interpolation.py", '''        self._cart_basis_vectors += basis_vectors_to_add
        if not self._is_dummy_model:''', '''        if not self._is_dummy_model:''')],
    "an addition rejected because of its amplitudes, followed by further use of the model",
    "the rejected degree of freedom stays in the basis: the corrected addition is refused and predictions fail",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
model = InterpolationModel(ref, np.eye(3))
d = np.zeros((3, 3))
d[0, 0] = 1.0
pols = np.array([np.eye(3) * 1.5, np.eye(3) * 0.5])
try:
    model.add_dof(d, np.array([0.1, 0.1]), pols, 1)
    expect(False, "duplicates accepted")
except Exception as exc:
    print("rejected:", exc)
expect(len(model.cart_basis_vectors) == 0, "rejected degree of freedom left behind")
model.add_dof(d, np.array([0.1, -0.1]), pols, 1)
''',
)
bug(
    "p08-adding-clears-mask", "P08",
    [("pmodel/_interpolation.py", "        self._mask = np.append(self._mask, [False] * len(basis_vectors_to_add))\n", "        self._mask = np.zeros(len(self._cart_basis_vectors), dtype=bool)\n")],
    "a degree of freedom added after others have been masked",
    "adding a degree of freedom silently unmasks all others",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
model = InterpolationModel(ref, np.eye(3))
pols = np.array([np.eye(3) * 1.5, np.eye(3) * 0.5])
for k in range(2):
    d = np.zeros((3, 3))
    d[k, 0] = 1.0
    model.add_dof(d, np.array([0.1, -0.1]), pols, 1)
    if k == 0:
        model.mask = np.array([True])
expect(list(model.mask) == [True, False], model.mask)
''',
)
bug(
    "p08-shallow-masked-copy", "P08",
    [("pmodel/_interpolation.py", '''        result = copy.deepcopy(self)
        new_mask = result.mask
''', '''        result = copy.copy(self)
        new_mask = result.mask
''')],
    "adding a degree of freedom to a masked copy (or to the original after copying) and then using the other one",
    "copy and original share their degrees of freedom, so building on one breaks the other",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
model = InterpolationModel(ref, np.eye(3))
pols = np.array([np.eye(3) * 1.5, np.eye(3) * 0.5])
d = np.zeros((3, 3))
d[0, 0] = 1.0
model.add_dof(d, np.array([0.1, -0.1]), pols, 1)
before = model.calc_polarizabilities(positions[None] + 0.01)
other = model.get_masked_model([0])
d = np.zeros((3, 3))
d[1, 1] = 1.0
other.add_dof(d, np.array([0.1, -0.1]), pols, 1)
expect(len(model.cart_basis_vectors) == 1, "building on the masked copy changed the original")
expect(np.allclose(model.calc_polarizabilities(positions[None] + 0.01), before), "building on the masked copy changed predictions")
''',
)
bug(
    "p09-fully-masked-shortcut", "P09",
    [("pmodel/_interpolation.py", '''            for basis_vector, interpolation, mask in zip(
                self._cart_basis_vectors,
                self._interpolations,
                self._mask,
                strict=True,
            ):
''', '''            if self._mask.all():
                return delta_polarizabilities + self._ref_polarizability
            for basis_vector, interpolation, mask in zip(
                self._cart_basis_vectors,
                self._interpolations,
                self._mask,
                strict=True,
            ):
''')],
    "a dummy model all of whose degrees of freedom are masked",
    "a fully masked dummy model returns numbers (zeros) instead of raising the user error",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.exceptions import UserError

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
model = InterpolationModel(ref, np.zeros((3, 3)), is_dummy_model=True)
d = np.zeros((3, 3))
d[0, 0] = 1.0
model.add_dof(d, np.array([0.1, -0.1]), np.zeros((2, 3, 3)), 1)
for m in (model, model.get_masked_model([0])):
    try:
        m.calc_polarizabilities(positions[None])
        expect(False, "dummy model predicted")
    except UserError:
        pass
''',
)
bug(
    "p09-dummy-skips-amplitude-checks", "P09",
    [("pmodel/_interpolation.py", '''            # Duplicate amplitudes means too much data has been provided.
            duplicate = find_duplicates(interpolation_x)
            if duplicate is not None:
''', '''            # Duplicate amplitudes means too much data has been provided.
            duplicate = find_duplicates(interpolation_x)
            if duplicate is not None and not self._is_dummy_model:
'''), ("pmodel/_interpolation.py", '''            sort_indices = np.argsort(interpolation_x)
            interpolations_to_add.append(''', '''            if self._is_dummy_model:
                continue
            sort_indices = np.argsort(interpolation_x)
            interpolations_to_add.append(''')],
    "amplitudes duplicated explicitly or by symmetry given to a dummy model",
    "a dummy model accepts specifications that the real model rejects",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.exceptions import InvalidDOFException

numbers, lattice, positions = rutile()
ref = ReferenceStructure(numbers, lattice, positions)
d = np.zeros((6, 3))
d[0] = [0, 0, 1.0]
kinds = []
for dummy in (False, True):
    model = InterpolationModel(ref, np.zeros((3, 3)), is_dummy_model=dummy)
    try:
        model.add_dof(d, np.array([0.1, -0.1]), np.zeros((2, 3, 3)), 1)
        kinds.append("accepted")
    except InvalidDOFException as exc:
        kinds.append("rejected")
expect(kinds[0] == kinds[1], f"real model {kinds[0]}, dummy model {kinds[1]}")
''',
)
bug(
    "p10-art-single-atom-tolerance", "P10",
    [("pmodel/_art.py", '''        displacements, amplitudes, polarizabilities = super()._read_dof(
            filepaths, file_format
        )
        # Check whether only one atom is displaced.
        _displacement = displacements[0].copy()
        atom_index = int(np.argmax(np.sum(_displacement**2, axis=1)))
        _displacement[atom_index] = np.zeros(3)
        if not np.allclose(_displacement, 0.0, atol=1e-6):
''', '''        displacements, amplitudes, polarizabilities = super()._read_dof(
            filepaths, file_format
        )
        # Check whether only one atom is displaced.
        _displacement = displacements[0].copy()
        atom_index = int(np.argmax(np.sum(_displacement**2, axis=1)))
        _displacement[atom_index] = np.zeros(3)
        if not np.allclose(_displacement.sum(axis=0), 0.0, atol=1e-6):
''')],
    "files in which the other displaced atoms move in opposite directions, so that their displacements cancel",
    "atomic Raman tensor models accept collective displacements from files",
    '''from ramannoodle.structure import ReferenceStructure
import ramannoodle.io.generic as io
from ramannoodle.pmodel import ARTModel
from ramannoodle.exceptions import InvalidDOFException

numbers, lattice, positions = triclinic(4)
ref = ReferenceStructure(numbers, lattice, positions)
SYMBOLS = {22: "Ti", 8: "O", 14: "Si", 16: "S"}
paths = []
for sign in (1, -1):
    x = positions.copy()
    x[0, 0] += sign * 0.02
    x[1, 1] += sign * 0.01
    x[2, 1] -= sign * 0.01
    path = f"{SCRATCH}/{sign}.xml"
    rows = lambda m: "".join("<v> " + " ".join("%.12f" % v for v in r) + " </v>" for r in m)
    with open(path, "w") as f:
        f.write("<modeling><atominfo><array name='atoms'><set>" + "".join(f"<rc><c>{SYMBOLS[z]}</c><c>1</c></rc>" for z in numbers) + "</set></array></atominfo>")
        f.write(f"<structure name='initialpos'><crystal><varray name='basis'>{rows(lattice)}</varray></crystal><varray name='positions'>{rows(x)}</varray></structure>")
        f.write(f"<calculation><varray name='dielectric_dft'>{rows(np.eye(3) * (1 + sign * 0.1))}</varray></calculation></modeling>")
    paths.append(path)
model = ARTModel(ref, np.eye(3))
try:
    model.add_art_from_files(paths, "vasprun.xml")
    expect(False, "collective displacement accepted by an ART model")
except InvalidDOFException:
    pass
''',
)
bug(
    "p11-capped-step", "P11",
    [("dynamics/_phonon.py", '''                epsilon = displacement * RAMAN_TENSOR_CENTRAL_DIFFERENCE
''', '''                # Keep steps small enough for the central difference to be accurate
                magnitude = max(1.0, float(np.linalg.norm(displacement)))
                epsilon = displacement / magnitude * RAMAN_TENSOR_CENTRAL_DIFFERENCE
''')],
    "phonon displacements of norm above one (as produced by user code with other normalisations)",
    "the Raman tensor of large displacements is not scaled back, so the constant of proportionality differs between phonons",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.dynamics import Phonons

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
model = InterpolationModel(ref, np.eye(3))
d = np.zeros((3, 3))
d[0, 0] = 1.0
model.add_dof(d, np.array([0.1, -0.1]), np.array([np.eye(3) * 1.1, np.eye(3) * 0.9]), 1)
e = np.zeros((3, 3))
e[0] = [0.3, 0.1, 0.0]
phonons = Phonons(positions, np.array([100.0, 200.0]), np.array([e, e * 10]))
t = phonons.get_raman_spectrum(model).raman_tensors
expect(np.allclose(t[1], 10 * t[0]), "Raman tensor is not linear in the displacement")
''',
)
bug(
    "p11-acoustic-cut", "P11",
    [("dynamics/_phonon.py", '''            raman_tensors.append((plus - minus) / RAMAN_TENSOR_CENTRAL_DIFFERENCE)
''', '''            raman_tensors.append((plus - minus) / RAMAN_TENSOR_CENTRAL_DIFFERENCE)
        # Acoustic modes are not Raman active
        acoustic = np.argsort(np.abs(self._wavenumbers))[:3]
        for index in acoustic:
            if abs(self._wavenumbers[index]) < 1.0:
                raman_tensors[index] *= 0.0
''')],
    "an optical phonon with a wavenumber below 1 cm-1 (a soft mode at its transition)",
    "the Raman tensor of a soft mode is reported as zero although the polarizability responds to it",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.dynamics import Phonons

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
model = InterpolationModel(ref, np.eye(3))
d = np.zeros((3, 3))
d[0, 0] = 1.0
model.add_dof(d, np.array([0.1, -0.1]), np.array([np.eye(3) * 1.1, np.eye(3) * 0.9]), 1)
e = np.zeros((3, 3))
e[0] = [0.03, 0.01, 0.0]
for w in (0.4, -0.2, 55.0):
    t = Phonons(positions, np.array([w]), e[None]).get_raman_spectrum(model).raman_tensors
    expect(np.abs(t).max() > 1e-4, f"wavenumber {w}: no Raman tensor")
''',
)
bug(
    "p13-missing-offdiagonal", "P13",
    [("spectrum/_raman.py", '''            + 3 * calc_signal_spectrum(ad[:, 1, 2], timestep)[1]
            + 3 * calc_signal_spectrum(ad[:, 0, 2], timestep)[1]
''', '''            + 3 * calc_signal_spectrum(ad[:, 0, 2] + ad[:, 1, 2], timestep)[1]
''')],
    "xz and yz components that move in a correlated way",
    "cross terms between xz and yz appear, so the spectrum changes with the frame",
    '''from ramannoodle.spectrum import MDRamanSpectrum

n = 400
t = np.arange(n)
a = np.zeros((n, 3, 3))
a[:, 0, 2] = a[:, 2, 0] = 0.1 * np.sin(0.3 * t)
a[:, 1, 2] = a[:, 2, 1] = 0.07 * np.sin(0.3 * t)
R = np.array([[0.0, 1, 0], [-1, 0, 0], [0, 0, 1]])
x = MDRamanSpectrum(a, 1.0).measure()[1]
y = MDRamanSpectrum(R.T @ a @ R, 1.0).measure()[1]
expect(np.allclose(x, y, rtol=1e-8, atol=1e-8 * np.abs(x).max()), "MD spectrum changes under rotation")
''',
)
bug(
    "p14-cached-intensities", "P14",
    [("spectrum/_raman.py", '''        intensities = 45.0 * alpha_squared + 7.0 * gamma_squared

        if laser_correction:
''', '''        if self._intensities is None:
            self._intensities = 45.0 * alpha_squared + 7.0 * gamma_squared
        intensities = self._intensities

        if laser_correction:
'''), ("spectrum/_raman.py", '''        self._phonon_wavenumbers = phonon_wavenumbers
        self._raman_tensors = raman_tensors
''', '''        self._phonon_wavenumbers = phonon_wavenumbers
        self._raman_tensors = raman_tensors
        self._intensities: NDArray[np.float64] | None = None
''')],
    "a second measurement of the same spectrum after one with a correction",
    "corrections are multiplied into the cached intensities and so accumulate over measurements",
    '''from ramannoodle.spectrum import PhononRamanSpectrum

s = PhononRamanSpectrum(np.array([100.0, 400.0]), np.array([np.eye(3), np.diag([1.0, 2, 3])]))
raw = s.measure()[1].copy()
s.measure(laser_correction=True, bose_einstein_correction=True)
expect(np.allclose(s.measure()[1], raw), "a corrected measurement changed later ones")
''',
)

bug(
    "p01-half-cell-rounding", "P01",
    [("structure/utils.py", "        return np.where(displacement % 1 > 0.5, displacement % 1 - 1, displacement % 1)\n", "        return displacement * 1.0 - np.round(displacement)\n")],
    "a displacement component of exactly half a cell (odd multiple of 1/2)",
    "np.round rounds ties to even, so -1/2 and 3/2 are wrapped to -1/2, which is outside (-1/2,1/2], and shifts by whole cells change the result",
    '''from ramannoodle.structure.utils import apply_pbc_displacement

for value in (-0.5, 0.5, 1.5, 2.5, -1.5, 0.25, -0.75):
    wrapped = float(apply_pbc_displacement(np.array([value]))[0])
    expect(-0.5 < wrapped <= 0.5, f"{value} -> {wrapped}")
    expect(abs((value - wrapped) - round(value - wrapped)) < 1e-12, f"{value} -> {wrapped}")
''',
)
bug(
    "p01-snap-to-zero", "P01",
    [("structure/utils.py", "        return positions - positions // 1\n", "        wrapped = positions - positions // 1\n        # Tiny negative positions should not be wrapped to 1\n        return np.where(np.isclose(wrapped, 1), 0.0, wrapped)\n")],
    "a coordinate within 1e-5 below a cell face",
    "coordinates up to 0.00001 below a cell face are snapped to zero, so wrapping changes them by more than a lattice vector",
    '''from ramannoodle.structure.utils import apply_pbc, calc_displacement

x = apply_pbc(np.array([[0.999995, 0.2, -4e-6]]))
expect(np.allclose((x - [[0.999995, 0.2, -4e-6]] + 0.5) % 1, 0.5, atol=1e-9, rtol=0), f"{x}")
d = calc_displacement(np.array([[0.0, 0, 0]]), np.array([[-4e-6, 0, 0]]))
expect(abs(d[0, 0] + 4e-6) < 1e-12, f"{d}")
''',
)
bug(
    "p03-loose-collinearity", "P03",
    [("structure/_symmetry_utils.py", "    return bool(np.allclose(dot_product, 1) or np.isclose(dot_product, -1))\n", "    return bool(np.abs(dot_product) > 0.999)\n")],
    "a displacement within about two degrees of a symmetry element (off-axis by a little)",
    "images that are not collinear are merged into one degree of freedom",
    '''from ramannoodle.structure import ReferenceStructure

numbers, lattice, positions = rutile()
ref = ReferenceStructure(numbers, lattice, positions)
d = np.zeros((6, 3))
d[2] = np.array([1.0, 1.0, 0.03]) @ np.linalg.inv(lattice)
for entry in ref.get_equivalent_displacements(d):
    first = (entry["displacements"][0] @ lattice).flatten()
    for other in entry["displacements"]:
        other = (other @ lattice).flatten()
        cosine = first @ other / np.linalg.norm(first) / np.linalg.norm(other)
        expect(abs(abs(cosine) - 1) < 1e-5, f"cosine {cosine} inside one degree of freedom")
''',
)
bug(
    "p03-stop-when-spanned", "P03",
    [("structure/_reference.py", '''            # If new orthogonal displacement discovered
''', '''            # Nothing is left to be found once all directions are spanned
            if len(result) == 3 * self.num_nonequivalent_atoms:
                break

            # If new orthogonal displacement discovered
''')],
    "an orbit of several atoms, so that a displacement has more images than three per inequivalent atom",
    "equivalent displacements found after the first three per inequivalent atom are missing",
    '''from ramannoodle.structure import ReferenceStructure

# face-centred cubic crystal in its conventional cell: 4 equivalent atoms, 12 images of a displacement along x
ref = ReferenceStructure([29] * 4, np.eye(3) * 3.6, np.array([[0, 0, 0], [0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]]))
d = np.zeros((4, 3))
d[0, 0] = 0.01
found = ref.get_equivalent_displacements(d)
expect(len(found) == 12, f"{len(found)} degrees of freedom, not 12")
expect(all(len(e["displacements"]) == 2 for e in found), "missing opposite displacements")
''',
)
bug(
    "p05-noise-filter", "P05",
    [("pmodel/_interpolation.py", '''            child_displacement = dof_dictionary["displacements"][0]

''', '''            child_displacement = dof_dictionary["displacements"][0]
            # Remove numerical noise
            child_displacement[np.abs(child_displacement) < 1e-4] = 0.0

''')],
    "a collective displacement in which some components are three orders of magnitude smaller than others",
    "small components of a degree of freedom are dropped, so the model no longer returns the supplied polarizability at the supplied structures and spurious responses appear elsewhere",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
model = InterpolationModel(ref, np.eye(3))
d = np.array([[1.0, 0.5, 0.2], [0.0006, -0.0009, 0.0005], [0.0, 0.0006, 0.0003]]) @ lattice
unit = d / np.linalg.norm(d)
pols = np.array([np.eye(3) * 1.5, np.eye(3) * 0.5])
model.add_dof(d, np.array([0.3, -0.3]), pols, 1)
expect(np.allclose(model.cart_basis_vectors[0], unit, atol=1e-7), "degree of freedom is not the supplied direction")
''',
)
bug(
    "p07-loose-duplicates", "P07",
    [("pmodel/_interpolation.py", "            if np.allclose(vector_1, vector_2):\n", "            if np.allclose(vector_1, vector_2, atol=1e-3):\n")],
    "finely spaced amplitudes (closer than 0.001 Angstrom)",
    "valid degrees of freedom with finely spaced amplitudes are rejected as duplicates",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
model = InterpolationModel(ref, np.eye(3))
d = np.zeros((3, 3))
d[0, 0] = 1.0
model.add_dof(d, np.array([0.0008, -0.0008]), np.array([np.eye(3) * 1.5, np.eye(3) * 0.5]), 2)
''',
)
bug(
    "p10-pymatgen-largest-first", "P10",
    [("pmodel/_interpolation.py", '''        cart_basis_vector = self._ref_structure.get_cart_displacement(displacements[0])
        cart_basis_vector /= np.linalg.norm(cart_basis_vector)

        # Calculate amplitudes
        amplitudes = []
        for displacement in displacements:
            cart_displacement = self._ref_structure.get_cart_displacement(displacement)
            amplitudes.append(get_amplitude(cart_basis_vector, cart_displacement))
        return (
            np.array(displacements),
            np.array(amplitudes),
        )
''', '''        # The largest displacement defines the direction best
        norms = np.round([np.linalg.norm(d) for d in displacements], 4)
        cart_basis_vector = self._ref_structure.get_cart_displacement(
            displacements[int(np.argmax(norms))]
        )
        cart_basis_vector /= np.linalg.norm(cart_basis_vector)

        # Calculate amplitudes
        amplitudes = []
        for displacement in displacements:
            cart_displacement = self._ref_structure.get_cart_displacement(displacement)
            amplitudes.append(get_amplitude(cart_basis_vector, cart_displacement))
        return (
            np.array(displacements),
            np.array(amplitudes),
        )
''')],
    "in-memory structures of which the most displaced one lies opposite to the first one",
    "amplitudes are measured along the largest displacement but the basis vector is taken from the first, so the response has the wrong sign",
    '''from pymatgen.core import Structure
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
model = InterpolationModel(ref, np.eye(3))
structures, pols = [], []
for a in (0.05, -0.2, 0.1):
    x = positions.copy()
    x[0] += np.array([a, 0, 0]) @ np.linalg.inv(lattice)
    structures.append(Structure(lattice, numbers, x))
    pols.append(np.eye(3) * (1 + a))
model.add_dof_from_pymatgen(structures, np.array(pols), 1)
got = model.calc_polarizabilities(structures[0].frac_coords[None])[0]
expect(np.allclose(got, pols[0], atol=1e-8), f"{got}")
''',
)
bug(
    "p12-rounded", "P12",
    [("spectrum/_raman.py", '''        intensities = 45.0 * alpha_squared + 7.0 * gamma_squared

        if laser_correction:
''', '''        # Remove numerical noise
        intensities = np.round(45.0 * alpha_squared + 7.0 * gamma_squared, 12)

        if laser_correction:
''')],
    "Raman tensors with small components (below about 1e-5)",
    "intensities are rounded to 12 decimals, so weak lines vanish and intensities do not scale quadratically",
    '''from ramannoodle.spectrum import PhononRamanSpectrum

t = np.array([np.diag([1.0, 0.3, -2.0])])
a = PhononRamanSpectrum(np.array([100.0]), t).measure()[1]
b = PhononRamanSpectrum(np.array([100.0]), t * 1e-6).measure()[1]
expect(np.allclose(b, a * 1e-12, rtol=1e-6, atol=0), f"{b} != {a * 1e-12}")
''',
)
bug(
    "p12-orientation-arrays", "P12",
    [("spectrum/_raman.py", '''        if orientation != "polycrystalline":
            raise NotImplementedError(
                "only polycrystalline spectra are supported for now"
            )

        alpha_squared''', '''        if isinstance(orientation, str) and orientation != "polycrystalline":
            raise NotImplementedError(
                "only polycrystalline spectra are supported for now"
            )

        alpha_squared''')],
    "an orientation given as an array",
    "an unsupported orientation is silently ignored and the powder spectrum returned",
    '''from ramannoodle.spectrum import PhononRamanSpectrum

s = PhononRamanSpectrum(np.array([100.0]), np.array([np.eye(3)]))
for orientation in (np.array([0.0, 0.0, 1.0]), np.eye(3), "single crystal"):
    try:
        s.measure(orientation)
        expect(False, f"orientation {orientation} accepted")
    except (NotImplementedError, ValueError):
        pass
''',
)
bug(
    "p13-maximum-lag", "P13",
    [("spectrum/utils.py", '''    autocorrelation = autocorrelation[(len(autocorrelation) - 1) // 2 :]
''', '''    autocorrelation = autocorrelation[(len(autocorrelation) - 1) // 2 :]
    # Long lags are noisy
    autocorrelation = autocorrelation[:5000]
''')],
    "a signal of more than 5000 samples",
    "the autocorrelation is truncated, so spectra of long trajectories have the wrong wavenumbers and intensities",
    '''from ramannoodle.spectrum.utils import calc_signal_spectrum

for n in (400, 6400):
    w, i = calc_signal_spectrum(np.cos(0.2 * np.arange(n)), 1.0)
    expect(len(w) == n // 2, f"{n} samples: {len(w)} wavenumbers")
''',
)
bug(
    "p14-md-either-correction", "P14",
    [("spectrum/_raman.py", '''            intensities *= get_laser_correction(wavenumbers, laser_wavenumber)
        if bose_einstein_correction:
''', '''            intensities *= get_laser_correction(wavenumbers, laser_wavenumber)
        elif bose_einstein_correction:
''')],
    "an MD spectrum measured with both corrections on",
    "the thermal correction is ignored when the laser correction is on",
    '''from ramannoodle.spectrum import MDRamanSpectrum

n = 200
a = np.eye(3) * (1 + 0.1 * np.sin(0.3 * np.arange(n)))[:, None, None]
s = MDRamanSpectrum(a, 1.0)
raw, laser, thermal, both = (s.measure(laser_correction=l, bose_einstein_correction=b)[1] for l, b in ((0, 0), (1, 0), (0, 1), (1, 1)))
expect(np.allclose(both * raw, laser * thermal, rtol=1e-8, atol=0), "both corrections are not the product of the two")
''',
)
bug(
    "p15-sorted-grid", "P15",
    [("spectrum/utils.py", '''    verify_ndarray("out_wavenumbers", out_wavenumbers)
''', '''    verify_ndarray("out_wavenumbers", out_wavenumbers)
    out_wavenumbers = np.unique(out_wavenumbers)
''')],
    "an output grid that is unsorted or has repeated points",
    "the spectrum is returned on another grid than the requested one",
    '''from ramannoodle.spectrum.utils import convolve_spectrum

for out in (np.array([300.0, 100.0, 200.0]), np.array([1.0, 1.0, 2.0])):
    w, i = convolve_spectrum(np.array([100.0]), np.array([1.0]), "gaussian", 50.0, out)
    expect(np.array_equal(w, out), f"{w} != {out}")
''',
)
bug(
    "p15-skip-weak-lines", "P15",
    [("spectrum/utils.py", '''        factor = 0
''', '''        factor = 0
        if intensity < 1e-10:  # nothing to see
            continue
''')],
    "intensities in small units (below 1e-10), or negative ones",
    "weak lines are dropped, so the convolution is not linear and does not conserve weight",
    '''from ramannoodle.spectrum.utils import convolve_spectrum

a = convolve_spectrum(np.array([100.0, 150.0]), np.array([1.0, 2.0]))[1]
b = convolve_spectrum(np.array([100.0, 150.0]), np.array([1.0, 2.0]) * 1e-11)[1]
expect(np.allclose(b * 1e11, a), "not linear")
''',
)
