"""Bugs planted in the fifth batch (see plant.py)."""

from batch1 import PRELUDE  # noqa: F401
from batch2 import TRAIN
from batch3 import MD_OUTCAR, VASPRUN

BUGS = []

HEX = '''
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import ARTModel, InterpolationModel

# trigonal (P3m1): one polar atom pair on the axis, three in the plane
lattice = np.array([[5.0, 0.0, 0.0], [-2.5, 2.5 * np.sqrt(3), 0.0], [0.0, 0.0, 7.0]])
positions = np.array([[0.0, 0.0, 0.03], [1 / 3, 2 / 3, 0.4], [0.17, 0.34, 0.7], [0.17, 0.83, 0.7], [0.66, 0.83, 0.7]])
numbers = [22, 14, 8, 8, 8]
'''


def bug(ident, prop, edits, needs, breaks, demo):
    BUGS.append({"id": ident, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


bug(
    "p06-rounded-rotation", "P06",
    [("pmodel/_interpolation.py", '''                        (np.linalg.inv(rotation) @ delta_polarizability @ rotation)
''', '''                        np.around(np.linalg.inv(rotation), 3)
                        @ delta_polarizability
                        @ np.around(rotation, 3)  # remove numerical noise
''')],
    "a crystal whose Cartesian rotations are no signed permutations, such as a hexagonal one",
    "tensors of symmetry images are slightly distorted, so the completed model is not equivariant",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

lattice = np.array([[5.0, 0.0, 0.0], [-2.5, 2.5 * np.sqrt(3), 0.0], [0.0, 0.0, 7.0]])
# P3: an atom in a general position and its two images, one on the axis
x, y, z = 0.17, 0.41, 0.3
positions = np.array([[0.0, 0.0, 0.0], [x, y, z], [1 - y, x - y + 1, z], [y - x, 1 - x, z]]) % 1
ref = ReferenceStructure([22, 8, 8, 8], lattice, positions)
expect(ref.num_nonequivalent_atoms == 2, "set up")
m = InterpolationModel(ref, np.diag([3.0, 3.0, 4.0]))
d = np.zeros((4, 3))
d[1] = [0, 0, 1]
delta = np.array([[0.4, 0.3, -0.7], [0.3, -1.1, 0.2], [-0.7, 0.2, 0.9]]) * 100
m.add_dof(d, np.array([0.1]), np.array([np.diag([3.0, 3.0, 4.0]) + delta]), 1)


def response(atom):
    u = np.zeros((4, 3))
    u[atom] = [0, 0, 0.1]
    return m.calc_polarizabilities((positions + u @ np.linalg.inv(lattice))[None])[0] - m.ref_polarizability


got = [np.sort(np.linalg.eigvalsh(response(k))) for k in (1, 2, 3)]
expect(np.allclose(got, np.sort(np.linalg.eigvalsh(delta)), rtol=1e-7, atol=1e-7), f"eigenvalues {got}")
''',
)
bug(
    "p10-snapped-direction", "P10",
    [("pmodel/_art.py", '''        displacement[atom_index] = direction / np.linalg.norm(direction * 10.0)
''', '''        # Directions are often read from rounded data: snap to the lattice vectors
        direction = np.where(
            np.abs(direction) < 5e-3 * np.max(np.abs(direction)), 0, direction
        )
        displacement[atom_index] = direction / np.linalg.norm(direction * 10.0)
''')],
    "a direction within 0.3 degrees of, but not along, a lattice vector or plane",
    "the atomic Raman tensor is specified along another direction than that given, unlike the same interpolation model",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import ARTModel

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
m = ARTModel(ref, np.eye(3))
v = lattice[0] / np.linalg.norm(lattice[0]) + np.array([0.0, 0.002, 0.003])
m.add_art(1, v, np.array([0.1, -0.1]), np.array([np.eye(3) * 2, np.eye(3) * 0]))
got = m.cart_basis_vectors[0][1]
expect(np.allclose(got, v / np.linalg.norm(v), atol=1e-7), f"{got} instead of {v / np.linalg.norm(v)}")
''',
)
bug(
    "p12-single-precision", "P12",
    [("spectrum/_raman.py", '''        self._raman_tensors = raman_tensors

''', '''        # Thousands of modes are common: half the memory suffices
        self._raman_tensors = raman_tensors.astype(np.float32)

''')],
    "tensors of very different or very large size, or precise intensities",
    "intensities are rounded to seven digits and overflow for large tensors",
    '''from ramannoodle.spectrum import PhononRamanSpectrum

t = np.array([[[1.0, 1e-9, 0], [1e-9, 1.0, 0], [0, 0, 1.0 + 1e-9]], [[1e25, 0, 0], [0, 2e25, 0], [0, 0, 3e25]]])
w, i = PhononRamanSpectrum(np.array([100.0, 200.0]), t).measure()
expect(np.isfinite(i).all() and abs(i[1] / (45 * 4e50 + 7 * 3e50) - 1) < 1e-9, f"{i}")
''',
)
bug(
    "p14-clipped-exponent", "P14",
    [("spectrum/_raman.py", '''        return 1 / (1 - np.exp(-energy / (BOLTZMANN_CONSTANT * temperature)))
''', '''        exponent = energy / (BOLTZMANN_CONSTANT * temperature)
        exponent = np.where(np.abs(exponent) < 1e-3, 1e-3, exponent)  # avoid division by 0
        return 1 / (1 - np.exp(-exponent))
''')],
    "low wavenumbers and high temperatures (hc nu / kT below 0.001)",
    "the thermal correction saturates at 1000.5",
    '''from ramannoodle.spectrum import PhononRamanSpectrum

w = np.array([0.1, 1.0, 50.0])
s = PhononRamanSpectrum(w, np.repeat(np.diag([1.0, 2.0, 3.0])[None], 3, axis=0))
raw = s.measure()[1]
got = s.measure(bose_einstein_correction=True, temperature=2000.0)[1] / raw
want = 1 / -np.expm1(-1.438777 * w / 2000.0)
expect(np.allclose(got, want, rtol=1e-3), f"{got} instead of {want}")
''',
)
bug(
    "p15-default-grid-unsorted", "P15",
    [("spectrum/utils.py", '''        min_wavenumber = np.min(wavenumbers) - 100
        max_wavenumber = np.max(wavenumbers) + 100
''', '''        ends = wavenumbers[:: max(1, len(wavenumbers) - 1)]
        min_wavenumber = np.min(ends) - 100
        max_wavenumber = np.max(ends) + 100
''')],
    "lines that are not sorted by wavenumber, and the default grid",
    "the default grid does not extend around all lines",
    '''from ramannoodle.spectrum.utils import convolve_spectrum

w, i = convolve_spectrum(np.array([300.0, 900.0, 100.0, 400.0]), np.ones(4))
expect(w.min() <= 0.5 and w.max() >= 999.5, f"grid from {w.min()} to {w.max()}")
''',
)
bug(
    "p02-nearly-orthogonal", "P02",
    [("structure/_reference.py", '''        displacement = (cart_displacement) @ np.linalg.inv(self.lattice)
        return''', '''        lengths = np.diag(self._lattice)
        if np.allclose(self._lattice, np.diag(lengths), atol=1e-2):  # orthogonal
            displacement = cart_displacement / lengths
        else:
            displacement = cart_displacement @ np.linalg.inv(self._lattice)
        return''')],
    "a lattice whose vectors are within a few thousandths of orthogonal without being so",
    "small shears are ignored when Cartesian displacements are converted",
    '''from ramannoodle.structure import ReferenceStructure

lattice = np.array([[4.0, 0.008, 0.0], [0.0, 4.5, -0.007], [0.006, 0.0, 5.0]])
ref = ReferenceStructure([22, 8], lattice, np.array([[0.1, 0.2, 0.3], [0.6, 0.7, 0.5]]))
d = np.array([[0.3, -0.2, 0.4], [0.1, 0.5, -0.6]])
back = ref.get_cart_displacement(ref.get_frac_displacement(d))
expect(np.allclose(back, d, atol=1e-9), f"{back - d}")
''',
)
bug(
    "p02-wraps-only-large", "P02",
    [("structure/_reference.py", '''        displacement = apply_pbc_displacement(displacement)

        return displacement @ self._lattice
''', '''        if np.max(np.abs(displacement), initial=0) > 1:  # usually wrapped already
            displacement = apply_pbc_displacement(displacement)

        return displacement @ self._lattice
''')],
    "a fractional displacement between a half and one cell",
    "the Cartesian displacement is not that of the minimum image",
    '''from ramannoodle.structure import ReferenceStructure

ref = ReferenceStructure([22, 8], np.diag([4.0, 5.0, 6.0]), np.array([[0.1, 0.2, 0.3], [0.6, 0.7, 0.5]]))
got = ref.get_cart_displacement(np.array([[0.75, 0.0, 0.1], [0.0, -0.9, 0.0]]))
expect(np.allclose(got, [[-1, 0, 0.6], [0, 0.5, 0]]), f"{got}")
''',
)
bug(
    "p04-drops-small-components", "P04",
    [("structure/_displace.py", '''    verify_ndarray_shape("amplitudes", amplitudes, (None,))

''', '''    verify_ndarray_shape("amplitudes", amplitudes, (None,))
    # Eigenvectors are printed with six decimals, so the rest is noise
    cart_displacement = np.where(np.abs(cart_displacement) < 1e-3, 0, cart_displacement)

''')],
    "a direction in which some atoms move a thousand times less than others",
    "those atoms do not move at all",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.structure import get_displaced_positions

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
d = np.array([[1.0, 0.0, 0.0], [0.0005, 0.0, -0.0007], [0.2, 0.0008, 0.0]])
got = get_displaced_positions(ref, d, np.array([1.5]))[0]
move = got - positions
move = (move - np.rint(move)) @ lattice
want = 1.5 * d / np.linalg.norm(d)
expect(np.allclose(move, want, atol=1e-8), f"{move} instead of {want}")
''',
)
bug(
    "p01-rounded", "P01",
    [("structure/utils.py", '''    return apply_pbc_displacement(positions_2 - positions_1)
''', '''    # Positions are rarely known to more than ten digits
    return apply_pbc_displacement(np.round(positions_2 - positions_1, 10))
''')],
    "tiny displacements, or ones measured precisely",
    "displacements below 5e-11 vanish and others are rounded",
    '''from ramannoodle.structure.utils import calc_displacement, displace_positions

x = np.array([[0.1, 0.2, 0.3], [0.5, 0.6, 0.7]])
d = np.array([[2e-11, -3e-11, 1e-11], [0.0, 4e-11, 1e-12]])
got = calc_displacement(x, displace_positions(x, d))
expect(np.allclose(got, d, rtol=0, atol=1e-14), f"{got}")
''',
)
bug(
    "p08-duplicated-atoms", "P08",
    [("pmodel/_art.py", '''        atom_indexes = list(set(atom_indexes))

''', '''        atom_indexes = sorted(atom_indexes)

''')],
    "atoms that are given twice, such as by index and by symbol",
    "degrees of freedom are reported twice",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import ARTModel

numbers, lattice, positions = triclinic(3)
m = ARTModel(ReferenceStructure(numbers, lattice, positions), np.eye(3))
for atom in (0, 1):
    m.add_art(atom, np.array([1.0, 0, 0]), np.array([0.1, -0.1]), np.array([np.eye(3), np.eye(3) * 2]))
got = m.get_dof_indexes(["O", 1, 1])
expect(sorted(got) == [1], f"{got}")
''',
)
bug(
    "p09-dummy-overlap", "P09",
    [("pmodel/_interpolation.py", '''        if result != -1:
            raise InvalidDOFException(
                f"new dof is not orthogonal with existing dof (index={result})"
            )

        displacements_and''', '''        if result != -1:
            raise InvalidDOFException(
                f"new dof is not orthogonal with existing dof (index={result})"
            )
        if self._is_dummy_model:  # Only the directions matter
            amplitudes = amplitudes[:2]
            polarizabilities = polarizabilities[:2]

        displacements_and''')],
    "a specification that is wrong in its third or later amplitude, or has a high order",
    "the dummy accepts or rejects specifications that the real model does not",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = triclinic(3)
d = np.zeros((3, 3))
d[1] = [1, 2, 0]
amps = np.array([0.1, -0.1, 0.2, 0.1])
for dummy in (False, True):
    m = InterpolationModel(ReferenceStructure(numbers, lattice, positions), np.eye(3), dummy)
    try:
        m.add_dof(d, amps, np.zeros((4, 3, 3)), 1)
    except Exception:
        continue
    expect(False, f"duplicate accepted, dummy={dummy}")
''',
)
bug(
    "p13-even-lengths", "P13",
    [("spectrum/utils.py", '''    autocorrelation = _calc_autocorrelation(signal)
    wavenumbers''', '''    autocorrelation = _calc_autocorrelation(signal)
    # Transforms of prime length are slow
    if autocorrelation.size > 4000 and autocorrelation.size % 2 == 1:
        autocorrelation = autocorrelation[:-1]
    wavenumbers''')],
    "an odd number of more than 4000 samples",
    "the last lag is dropped and the wavenumber axis shifts",
    '''from ramannoodle.spectrum.utils import calc_signal_spectrum

rng = np.random.default_rng(1)
x = rng.normal(size=4001)
w, i = calc_signal_spectrum(x, 1.0)
expect(len(w) == 2001 and abs(w[1] * 4001 - 33356.40951981521) < 1e-3, f"{len(w)} {w[1] * 4001}")
''',
)
bug(
    "p03-ignores-symprec", "P03",
    [("structure/_reference.py", '''            spglib.get_symmetry(cell, symprec=symprec, angle_tolerance=angle_tolerance)
''', '''            spglib.get_symmetry(
                cell, symprec=min(symprec, 1e-3), angle_tolerance=angle_tolerance
            )
''')],
    "positions with noise of a few thousandths of an angstrom and a matching tolerance",
    "the requested tolerance is capped, so symmetry images and equivalent atoms are missed",
    '''from ramannoodle.structure import ReferenceStructure

numbers, lattice, positions = rutile()
noise = np.random.default_rng(3).uniform(-1, 1, (6, 3)) * 4e-3
ref = ReferenceStructure(numbers, lattice, positions + noise @ np.linalg.inv(lattice), symprec=0.05)
expect(ref.num_nonequivalent_atoms == 2, f"{ref.num_nonequivalent_atoms} inequivalent atoms")
''',
)
bug(
    "p05-capped-order", "P05",
    [("pmodel/_interpolation.py", '''                    k=interpolation_order,
''', '''                    k=min(interpolation_order, 3),  # higher orders tend to oscillate
''')],
    "an interpolation order above three",
    "polynomials of degree four and more are not reproduced",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = triclinic(3)
m = InterpolationModel(ReferenceStructure(numbers, lattice, positions), np.eye(3))
d = np.zeros((3, 3))
d[1] = [1, 0, 0]
f = lambda x: np.eye(3) * (1 + x**4 - 2 * x**3)
amps = np.array([-0.3, -0.2, -0.1, 0.1, 0.25])
m.add_dof(d, amps, np.array([f(x) for x in amps]), 4)
x = 0.18
got = m.calc_polarizabilities((positions + x * d @ np.linalg.inv(lattice))[None])[0]
expect(np.allclose(got, f(x), atol=1e-9), f"{got[0, 0]} instead of {f(x)[0, 0]}")
''',
)
bug(
    "p23-one-pass-variance", "P23",
    [("dataset/torch/_dataset.py", '''        result = self._polarizabilities.std(0, unbiased=False)
''', '''        square = (self._polarizabilities**2).mean(0)
        result = (square - self._polarizabilities.mean(0) ** 2).clamp(min=0).sqrt()
''')],
    "polarizabilities whose spread is small against their mean",
    "the reported standard deviation suffers from cancellation",
    '''from ramannoodle.dataset.torch import PolarizabilityDataset

rng = np.random.default_rng(1)
p = 1000 * np.ones((3, 3)) + 1e-5 * rng.normal(size=(20, 3, 3))
p = (p + p.transpose(0, 2, 1)) / 2
ds = PolarizabilityDataset(np.eye(3) * 4, [22, 8], rng.random((20, 2, 3)), p)
expect(np.allclose(ds.stddev_polarizability, p.std(axis=0), rtol=1e-6), f"{ds.stddev_polarizability / p.std(axis=0)}")
''',
)
bug(
    "p24-cached-predictions", "P24",
    [("pmodel/torch/_gnn.py", '''        self.eval()

        polarizabilities = torch.zeros((positions_batch.shape[0], 3, 3))
''', '''        self.eval()

        # Central differences and spectra ask for the same configurations repeatedly
        parameters = float(sum(p.detach().sum() for p in self.parameters()))
        key = (parameters, positions_batch.tobytes(), torch.get_default_dtype())
        if getattr(self, "_last_key", None) == key:
            return self._last_result.copy()
        self._last_key = key
        self._last_result = self._calc_polarizabilities(positions_batch)
        return self._last_result.copy()

    def _calc_polarizabilities(
        self, positions_batch: NDArray[np.float64]
    ) -> NDArray[np.float64]:
        """Calculate polarizabilities of a batch."""
        polarizabilities = torch.zeros((positions_batch.shape[0], 3, 3))
''')],
    "the same configurations before and after running statistics (not parameters) of the network changed",
    "the earlier prediction is returned after batch-norm statistics were restored or updated",
    TRAIN + '''m = model()
x = positions[None]
before = m.calc_polarizabilities(x)
state = {k: v.clone() for k, v in m.state_dict().items()}
for k in state:
    if "running_mean" in k:
        state[k] += 1.0
m.load_state_dict(state)
fresh = model()
fresh.load_state_dict(state)
got, want = m.calc_polarizabilities(x), fresh.calc_polarizabilities(x)
expect(np.allclose(got, want), f"{got} instead of {want}")
''',
)
bug(
    "p22-paths-in-place", "P22",
    [("io/_utils.py", '''        paths = []
        if len(filepaths) == 0:
            raise ValueError("filepaths is empty")
        for item in filepaths:
            paths.append(pathify(item))
        return paths
''', '''        if len(filepaths) == 0:
            raise ValueError("filepaths is empty")
        for index, item in enumerate(filepaths):
            filepaths[index] = pathify(item)
        return filepaths
''')],
    "a caller that uses its list of names after the call",
    "the caller's list of strings is changed to one of paths",
    '''from ramannoodle.structure import ReferenceStructure, write_displaced_structures

numbers, lattice, positions = triclinic(3)
names = [os.path.join(SCRATCH, n) for n in ("a", "b")]
kept = list(names)
write_displaced_structures(ReferenceStructure(numbers, lattice, positions), np.ones((3, 3)), np.array([0.1, 0.2]), names, "poscar")
expect(names == kept and all(type(n) is str for n in names), f"{names}")
''',
)
bug(
    "p16-fixed-width", "P16",
    [("io/vasp/poscar.py", '''     {vector[0]:9.16f}   {vector[1]:9.16f}   {vector[2]:9.16f}''', '''  {vector[0]:20.16f}{vector[1]:20.16f}{vector[2]:20.16f}''')],
    "lattice vectors with components of 100 Å or more",
    "neighbouring numbers touch and the lattice cannot be read",
    '''from ramannoodle.io.vasp import poscar

lattice = np.array([[4.0, 0.5, 210.5], [0.0, 150.25, 0.125], [1.0, 0.0, 160.75]])
path = os.path.join(SCRATCH, "POSCAR")
poscar.write_structure(lattice, [22], np.array([[0.1, 0.2, 0.3]]), path)
got = poscar.read_structure(path)[0]
expect(np.allclose(got, lattice), f"{got}")
''',
)
bug(
    "p11-shared-scale", "P11",
    [("dynamics/_phonon.py", '''        for displacement in self._displacements:
            try:
''', '''        # The same step (in fractional coordinates) for all phonons
        largest = np.max(np.abs(self._displacements), initial=0)
        for displacement in self._displacements:
            if largest > 0 and np.max(np.abs(displacement)) < 1e-4 * largest:
                raman_tensors.append(np.zeros((3, 3)))  # does not move
                continue
            try:
''')],
    "a phonon whose displacement is ten thousand times smaller than another's",
    "its Raman tensor is reported as zero",
    '''from ramannoodle.abstract import PolarizabilityModel
from ramannoodle.dynamics import Phonons


class Linear(PolarizabilityModel):
    def calc_polarizabilities(self, positions_batch):
        return positions_batch[:, 0, 0][:, None, None] * np.eye(3)


d = np.zeros((2, 2, 3))
d[0, 0, 0] = 1.0
d[1, 0, 0] = 5e-5
t = Phonons(np.full((2, 3), 0.3), np.array([100.0, 200.0]), d).get_raman_spectrum(Linear()).raman_tensors
expect(abs(t[1, 0, 0] / t[0, 0, 0] - 5e-5) < 1e-9, f"{t}")
''',
)
bug(
    "p26-noise-floor", "P26",
    [("dynamics/_phonon.py", '''            raman_tensors.append((plus - minus) / RAMAN_TENSOR_CENTRAL_DIFFERENCE)

''', '''            raman_tensor = (plus - minus) / RAMAN_TENSOR_CENTRAL_DIFFERENCE
            # Remove numerical noise
            raman_tensor[np.abs(raman_tensor) < 2e-3 * np.max(np.abs(raman_tensor))] = 0
            raman_tensors.append(raman_tensor)

''')],
    "Raman tensors with components over 500 times smaller than the largest",
    "small components are removed in one orientation of the crystal and kept in another, so intensities depend on it",
    '''from ramannoodle.abstract import PolarizabilityModel
from ramannoodle.dynamics import Phonons

t = np.array([[1.0, 0.0015, -0.7], [0.0015, 2.2, 0.9], [-0.7, 0.9, 0.3]])


class Linear(PolarizabilityModel):
    def calc_polarizabilities(self, positions_batch):
        return positions_batch[:, 0, 0][:, None, None] * t


d = np.zeros((1, 2, 3))
d[0, 0, 0] = 1.0
got = Phonons(np.full((2, 3), 0.3), np.array([100.0]), d).get_raman_spectrum(Linear()).raman_tensors[0]
expect(np.allclose(got / got[0, 0], t / t[0, 0], rtol=1e-6), f"{got}")
''',
)
bug(
    "p21-stuck-timestep", "P21",
    [("dynamics/_trajectory.py", '''        return MDRamanSpectrum(polarizability_ts, self._timestep)
''', '''        # Runs are usually written every few femtoseconds
        return MDRamanSpectrum(polarizability_ts, round(self._timestep, 2))
''')],
    "a timestep with more than two decimals",
    "spectra are computed with a rounded timestep",
    '''from ramannoodle.abstract import PolarizabilityModel
from ramannoodle.dynamics import Trajectory


class Linear(PolarizabilityModel):
    def calc_polarizabilities(self, positions_batch):
        return positions_batch[:, 0, 0][:, None, None] * np.eye(3)


s = Trajectory(np.random.default_rng(1).random((9, 2, 3)), 0.125).get_raman_spectrum(Linear())
expect(s.timestep == 0.125, f"{s.timestep}")
''',
)
