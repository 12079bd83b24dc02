"""Bugs planted in the sixth batch (see plant.py)."""

from batch1 import PRELUDE  # noqa: F401
from batch2 import TRAIN
from batch3 import MD_OUTCAR, VASPRUN

BUGS = []


def bug(ident, prop, edits, needs, breaks, demo):
    BUGS.append({"id": ident, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


bug(
    "p02-transposed-solve", "P02",
    [("structure/_reference.py", '''        displacement = (cart_displacement) @ np.linalg.inv(self.lattice)
''', '''        # Solving is more accurate than inverting
        displacement = np.linalg.solve(self.lattice, cart_displacement.T).T
''')],
    "a lattice whose matrix is not symmetric (diagonal lattices do not notice)",
    "displacements are converted with the transposed lattice",
    '''from ramannoodle.structure import ReferenceStructure

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
u = np.arange(9).reshape(3, 3) * 0.01
got = ref.get_frac_displacement(u) @ lattice
expect(np.allclose(got, u, atol=1e-12), f"{got}")
''',
)
bug(
    "p03-cached-symmetry", "P03",
    [("structure/_reference.py", '''class ReferenceStructure:
''', '''_SYMMETRY_CACHE: dict[tuple, dict] = {}


class ReferenceStructure:
'''), ("structure/_reference.py", '''        self._symmetry_dict: dict[str, NDArray[np.float64]] | None = (
            spglib.get_symmetry(cell, symprec=symprec, angle_tolerance=angle_tolerance)
        )
''', '''        # Symmetry searches of large cells are slow
        key = (tuple(atomic_numbers), positions.tobytes(), symprec, angle_tolerance)
        if key not in _SYMMETRY_CACHE:
            _SYMMETRY_CACHE[key] = spglib.get_symmetry(
                cell, symprec=symprec, angle_tolerance=angle_tolerance
            )
        self._symmetry_dict: dict[str, NDArray[np.float64]] | None = _SYMMETRY_CACHE[
            key
        ]
''')],
    "two structures in one process that differ only in their lattice, such as a strained cell",
    "the second structure gets the symmetry of the first",
    '''from ramannoodle.structure import ReferenceStructure

numbers, lattice, positions = [55, 17], np.eye(3) * 4.1, np.array([[0.0, 0, 0], [0.5, 0.5, 0.5]])
d = np.zeros((2, 3))
d[0, 0] = 0.01
a = len(ReferenceStructure(numbers, lattice, positions).get_equivalent_displacements(d))
b = len(ReferenceStructure(numbers, np.diag([4.1, 4.3, 4.5]), positions).get_equivalent_displacements(d))
expect((a, b) == (3, 1), f"{a} {b}")
''',
)
bug(
    "p05-rounded-amplitudes", "P05",
    [("pmodel/_interpolation.py", '''                    x=np.array(interpolation_x)[sort_indices],
''', '''                    # Images of one amplitude differ by numerical noise
                    x=np.around(np.array(interpolation_x)[sort_indices], 4),
''')],
    "amplitudes with more than four decimals, as always in bohr or from files",
    "the model does not reproduce the polarizabilities it was given at the amplitudes they were given for",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
m = InterpolationModel(ref, np.eye(3))
d = np.zeros((3, 3))
d[1] = [1.0, 0.2, 0.1]
amplitudes = np.array([-0.0294735, 0.0294735])
data = np.array([np.eye(3) - np.ones((3, 3)), np.eye(3) * 2])
m.add_dof(d, amplitudes, data, 2)
x = np.array([positions + a * d / np.linalg.norm(d) @ np.linalg.inv(lattice) for a in amplitudes])
expect(np.allclose(m.calc_polarizabilities(x), data, atol=1e-8), f"{m.calc_polarizabilities(x)}")
''',
)
bug(
    "p07-late-warning", "P07",
    [("pmodel/_interpolation.py", '''            # Warn user if amplitudes don't span zero
            max_amplitude = np.max(interpolation_x)
            min_amplitude = np.min(interpolation_x)
            if np.allclose(max_amplitude, 0, atol=1e-3) or max_amplitude <= 0:
                warn(
                    "max amplitude <= 0, when usually it should be > 0",
                    DOFWarning,
                )
            if np.allclose(min_amplitude, 0, atol=1e-3) or min_amplitude >= 0:
                warn(
                    "min amplitude >= 0, when usually it should be < 0",
                    DOFWarning,
                )

''', ''), ("pmodel/_interpolation.py", '''        self._cart_basis_vectors += basis_vectors_to_add
        if not self._is_dummy_model:
''', '''        self._cart_basis_vectors += basis_vectors_to_add
        # Warn user if amplitudes don't span zero
        for interpolation_x in interpolation_xs:
            max_amplitude = np.max(interpolation_x)
            min_amplitude = np.min(interpolation_x)
            if np.allclose(max_amplitude, 0, atol=1e-3) or max_amplitude <= 0:
                warn(
                    "max amplitude <= 0, when usually it should be > 0",
                    DOFWarning,
                )
            if np.allclose(min_amplitude, 0, atol=1e-3) or min_amplitude >= 0:
                warn(
                    "min amplitude >= 0, when usually it should be < 0",
                    DOFWarning,
                )
        if not self._is_dummy_model:
''')],
    "warnings turned into errors, and amplitudes on one side of zero",
    "the failing call leaves a basis vector without interpolation or mask, and the model can no longer predict",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = triclinic(3)
m = InterpolationModel(ReferenceStructure(numbers, lattice, positions), np.eye(3))
d = np.zeros((3, 3))
d[1] = [1.0, 0.2, 0.1]
with warnings.catch_warnings():
    warnings.simplefilter("error")
    try:
        m.add_dof(d, np.array([0.1, 0.2]), np.array([np.eye(3) * 2, np.eye(3) * 3]), 1)
    except Warning:
        pass
counts = (len(m.cart_basis_vectors), len(m.interpolations), len(m.mask))
expect(len(set(counts)) == 1, f"{counts}")
m.calc_polarizabilities(positions[None])
''',
)
bug(
    "p08-sorted-mask", "P08",
    [("pmodel/_interpolation.py", '''        new_mask[dof_indexes_to_mask] = True
''', '''        first, last = np.min(dof_indexes_to_mask), np.max(dof_indexes_to_mask)
        new_mask[first : last + 1] = True
''')],
    "a list of indexes that is not contiguous, or negative",
    "degrees of freedom between those listed are masked too",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = triclinic(3)
m = InterpolationModel(ReferenceStructure(numbers, lattice, positions), np.eye(3))
for k in range(3):
    d = np.zeros((3, 3))
    d[1, k] = 1
    m.add_dof(d, np.array([0.1, -0.1]), np.array([np.eye(3) * 2, np.eye(3) * 3]), 1)
expect(m.get_masked_model([0, 2]).mask.tolist() == [True, False, True], f"{m.get_masked_model([0, 2]).mask}")
''',
)
bug(
    "p09-dummy-becomes-real", "P09",
    [("pmodel/_interpolation.py", '''        new_mask[:] = False
''', '''        new_mask[:] = False
        # Masked models never use masked interpolations
        result._is_dummy_model = self._is_dummy_model and len(dof_indexes_to_mask) == 0
''')],
    "a masked copy of a dummy model",
    "the copy no longer says that it is a dummy and takes real data",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import ARTModel

numbers, lattice, positions = triclinic(3)
m = ARTModel(ReferenceStructure(numbers, lattice, positions), np.eye(3), is_dummy_model=True)
m.add_art(1, np.array([1.0, 0, 0]), np.array([0.1, -0.1]), np.zeros((2, 3, 3)))
copy = m.get_masked_model([0])
expect(copy.is_dummy_model, "no dummy")
expect("dummy" in repr(copy), repr(copy))
''',
)
bug(
    "p11-reuses-previous", "P11",
    [("dynamics/_phonon.py", '''        for displacement in self._displacements:
            try:
''', '''        for index, displacement in enumerate(self._displacements):
            # Degenerate modes have the same tensor
            if index > 0 and np.isclose(
                self._wavenumbers[index], self._wavenumbers[index - 1], rtol=1e-6
            ):
                raman_tensors.append(raman_tensors[-1])
                continue
            try:
''')],
    "two consecutive modes of the same wavenumber",
    "the second mode is given the Raman tensor of the first",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.dynamics import Phonons

numbers, lattice, positions = triclinic(3)
m = InterpolationModel(ReferenceStructure(numbers, lattice, positions), np.eye(3))
for k in range(2):
    d = np.zeros((3, 3))
    d[1, k] = 1
    m.add_dof(d, np.array([0.1, -0.1]), np.array([np.eye(3) * (2 + k), np.eye(3) * 0]), 1)
e = np.zeros((2, 3, 3))
e[0, 1, 0] = e[1, 1, 1] = 0.1
t = Phonons(positions, np.array([200.0, 200.0]), e).get_raman_spectrum(m).raman_tensors
expect(not np.allclose(t[0], t[1]), f"{t}")
''',
)
bug(
    "p14-above-laser", "P14",
    [("spectrum/_raman.py", '''        return ((wavenumbers - laser_wavenumber) / 10000) ** 4 / wavenumbers
''', '''        scattered = np.maximum(laser_wavenumber - wavenumbers, 0)
        return (scattered / 10000) ** 4 / wavenumbers
''')],
    "wavenumbers above the laser's, such as those of a molecular dynamics spectrum with a short timestep or a long-wavelength laser",
    "the correction vanishes there instead of following the stated law",
    '''from ramannoodle.spectrum._raman import get_laser_correction

w = np.array([100.0, 5000.0, 20000.0])
got = get_laser_correction(w, 10000.0)
expect(np.allclose(got, ((w - 10000) / 10000) ** 4 / w), f"{got}")
''',
)
bug(
    "p16-frame-batches", "P16",
    [("io/vasp/xdatcar.py", '''        for index, positions in enumerate(positions_ts):
            config_label''', '''        # Every frame is read from its label, so frames without motion need not be written
        for index, positions in enumerate(positions_ts):
            if 0 < index < len(positions_ts) - 1 and np.array_equal(
                positions, positions_ts[index - 1]
            ):
                continue
            config_label''')],
    "a trajectory with consecutive frames that are identical, apart from the last",
    "frames are missing from the written trajectory",
    '''from ramannoodle.io.vasp import xdatcar

numbers, lattice, positions = triclinic(3)
numbers = [22, 8, 14]
ts = np.array([positions, positions + 0.01, positions + 0.01, positions])
path = os.path.join(SCRATCH, "XDATCAR")
xdatcar.write_trajectory(lattice, numbers, ts, path)
got = xdatcar.read_positions_ts(path)
expect(got.shape == ts.shape, f"{got.shape}")
''',
)
bug(
    "p16-compact-lattice", "P16",
    [("io/vasp/poscar.py", '''    for vector in lattice:
        result +=''', '''    scale = 10.0 if np.max(np.abs(lattice)) >= 100 else 1.0
    for vector in lattice / scale:  # keep columns aligned
        result +=''')],
    "a lattice with a component of 100 Angstrom or more",
    "the lattice is written a tenth as large",
    '''from ramannoodle.io.vasp import poscar

numbers, _, positions = triclinic(3)
lattice = np.diag([5.0, 6.0, 120.0])
path = os.path.join(SCRATCH, "POSCAR")
poscar.write_structure(lattice, numbers, positions, path)
got = poscar.read_structure(path)[0]
expect(np.allclose(got, lattice), f"{got}")
''',
)
bug(
    "p17-empty-files", "P17",
    [("io/vasp/xdatcar.py", '''    open_mode = "w" if overwrite else "x"
''', '''    # Leftovers of a failed run contain no configurations
    if filepath.is_file() and b"Direct" not in filepath.read_bytes():
        overwrite = True
    open_mode = "w" if overwrite else "x"
''')],
    "an existing file that is no trajectory in direct coordinates",
    "the existing file is overwritten without permission",
    '''from ramannoodle.io.vasp import xdatcar

numbers, lattice, positions = triclinic(3)
path = os.path.join(SCRATCH, "XDATCAR")
with open(path, "w") as f:
    f.write("")
try:
    xdatcar.write_trajectory(lattice, numbers, positions[None], path)
except FileExistsError:
    pass
expect(open(path).read() == "", "overwritten")
''',
)
bug(
    "p18-many-species", "P18",
    [("io/vasp/outcar.py", '''        atomic_symbols = []
        for symbol, number in zip(potcar_symbols, atomic_numbers):
            atomic_symbols += [symbol] * number
        return atomic_symbols
''', '''        # Types of the same element are one species
        species: dict[str, int] = {}
        for symbol, number in zip(potcar_symbols, atomic_numbers):
            species[symbol] = species.get(symbol, 0) + number
        return [symbol for symbol in species for _ in range(species[symbol])]
''')],
    "a calculation with two types of the same element that are not adjacent",
    "atoms are attributed to the wrong elements",
    MD_OUTCAR + '''from ramannoodle.io.vasp import outcar

text = [" POTCAR:    PAW_PBE O 08Apr2002", " POTCAR:    PAW_PBE Ti_pv 07Sep2000", " POTCAR:    PAW_PBE O_s 08Apr2002", " POTCAR:    PAW_PBE O 08Apr2002", "   VRHFIN =O: s2p4", "   LEXCH  = PE"]
text += ["   ions per type =               1   1   1", " Write flags"] + lattice_block(lattice) + fractional(np.array([[0.1, 0.2, 0.3], [0.5, 0.6, 0.7], [0.9, 0.1, 0.4]]))
numbers = outcar.read_ref_structure(save("OUTCAR", text)).atomic_numbers
expect(list(numbers) == [8, 22, 8], f"{numbers}")
''',
)
bug(
    "p16-cached-reads", "P16",
    [("io/vasp/poscar.py", '''def read_structure(
''', '''_STRUCTURES: dict[
    tuple, tuple[NDArray[np.float64], list[int], NDArray[np.float64]]
] = {}


def read_structure(
'''), ("io/vasp/poscar.py", '''        positions = _read_positions(file, lattice, scale_factor, len(atomic_symbols))
        return lattice, atomic_numbers, positions
''', '''        positions = _read_positions(file, lattice, scale_factor, len(atomic_symbols))
        # The same files are read over and over
        key = (filepath.resolve(), filepath.stat().st_size)
        stored = _STRUCTURES.setdefault(key, (lattice, atomic_numbers, positions))
        return stored[0].copy(), list(stored[1]), stored[2].copy()
''')],
    "a file that is rewritten with the same size between two reads in one process",
    "the reader returns the file's earlier contents",
    '''from ramannoodle.io.vasp import poscar

numbers, lattice, positions = triclinic(3)
path = os.path.join(SCRATCH, "POSCAR")
for shift in (0.0, 0.05):
    poscar.write_structure(lattice, numbers, positions + shift, path, overwrite=True)
    got = poscar.read_structure(path)[2]
    expect(np.allclose(got, positions + shift), f"{got}")
''',
)
bug(
    "p19-volume-check", "P19",
    [("io/pymatgen.py", '''        if not np.allclose(_get_lattice(pymatgen_structure), lattice, atol=1e-5):
''', '''        if not np.isclose(
            np.linalg.det(_get_lattice(pymatgen_structure)), np.linalg.det(lattice)
        ):
''')],
    "structures whose lattices differ at equal volume, such as a rotated or sheared cell",
    "structures are accepted from pymatgen that are refused from files, with positions in another cell",
    '''from pymatgen.core import Structure
from ramannoodle.exceptions import IncompatibleStructureException
from ramannoodle.io.pymatgen import construct_polarizability_dataset

numbers, lattice, positions = triclinic(3)
sheared = lattice.copy()
sheared[0] += 0.3 * sheared[1]
structures = [Structure(l, numbers, positions) for l in (lattice, sheared)]
try:
    construct_polarizability_dataset(structures, np.zeros((2, 3, 3)))
except IncompatibleStructureException:
    sys.exit(0)
expect(False, "accepted")
''',
)
bug(
    "p20-numbers-as-words", "P20",
    [("io/vasp/poscar.py", '''    str_counts = line.split()
''', '''    str_counts = [count.split(".")[0] for count in line.split()]
''')],
    "ion counts that are damaged into a number with a fraction or exponent",
    "a damaged count is rounded down and the file is read without its last atoms",
    '''from ramannoodle.exceptions import InvalidFileException
from ramannoodle.io.vasp import poscar

path = os.path.join(SCRATCH, "POSCAR")
with open(path, "w") as f:
    f.write("x\\n1.0\\n4 0 0\\n0 5 0\\n0 0 6\\nTi O\\n1 1.2\\nDirect\\n0 0 0\\n0.1 0.2 0.3\\n0.5 0.5 0.5\\n")
try:
    got = poscar.read_structure(path)
except InvalidFileException:
    sys.exit(0)
expect(False, f"{got}")
''',
)
bug(
    "p21-lazy-slices", "P21",
    [("dynamics/_trajectory.py", '''        try:
            return self._positions_ts[key]
''', '''        try:
            if isinstance(key, slice) and key.step is None:
                stop = len(self) if key.stop is None else key.stop
                return self._positions_ts[key.start or 0 : min(stop, len(self))]
            if isinstance(key, int) and key < -len(self):
                key = 0
            return self._positions_ts[key]
''')],
    "a negative index beyond the trajectory's beginning",
    "the first configuration is returned instead of an IndexError",
    '''from ramannoodle.dynamics import Trajectory

t = Trajectory(np.random.default_rng(1).random((4, 2, 3)), 1.0)
try:
    t[-6]
except IndexError:
    sys.exit(0)
expect(False, "no IndexError")
''',
)
bug(
    "p22-shared-grid", "P22",
    [("spectrum/utils.py", '''def convolve_spectrum(
''', '''_GRIDS: dict[tuple[float, float], NDArray[np.float64]] = {}


def convolve_spectrum(
'''), ("spectrum/utils.py", '''        out_wavenumbers = np.linspace(min_wavenumber, max_wavenumber, num_samples)
''', '''        out_wavenumbers = _GRIDS.setdefault(
            (min_wavenumber, max_wavenumber),
            np.linspace(min_wavenumber, max_wavenumber, num_samples),
        )
''')],
    "two convolutions of spectra over the same range, with the first grid edited in between",
    "the caller's edit of one returned grid changes later results",
    '''from ramannoodle.spectrum.utils import convolve_spectrum

w = np.array([100.0, 200.0, 300.0])
first, _ = convolve_spectrum(w, np.ones(3))
want = first.copy()
first *= 0.124  # to meV
second, _ = convolve_spectrum(w, np.ones(3))
expect(np.array_equal(second, want), f"{second[:3]}")
''',
)
bug(
    "p23-constant-components", "P23",
    [("dataset/torch/_dataset.py", '''        scaled = scaled - torch.tensor(mean)
''', '''        # Components far outside the statistics are outliers
        deviation = scaled - torch.tensor(mean)
        limit = 50 * torch.abs(torch.tensor(stddev))
        scaled = deviation
        scaled = torch.where(limit > 0, torch.clamp(scaled, -limit, limit), scaled)
''')],
    "a sample more than fifty standard deviations from the mean used for scaling",
    "outlying samples are clipped, so scaling cannot be inverted",
    '''import torch
from ramannoodle.dataset.torch import PolarizabilityDataset

torch.set_default_dtype(torch.float64)
numbers, lattice, positions = triclinic(3)
p = np.array([np.eye(3), np.eye(3) * 100.0])
ds = PolarizabilityDataset(lattice, numbers, np.array([positions, positions]), p)
ds.scale_polarizabilities(np.eye(3), np.full((3, 3), 0.5))
got = ds.scaled_polarizabilities[1][0] * 0.5 + 1
expect(abs(got - 100) < 1e-6, f"{got}")
''',
)
bug(
    "p24-nearest-shell", "P24",
    [("pmodel/torch/_utils.py", '''    adjacency_matrix = cart_distance_matrix <= cutoff
''', '''    adjacency_matrix = cart_distance_matrix < torch.ceil(
        torch.tensor(cutoff * 2)
    ) / 2
''')],
    "a cutoff that is not a multiple of half an Angstrom, with atoms in between",
    "atoms further apart than the cutoff influence each other",
    '''import torch
from ramannoodle.pmodel.torch._utils import _radius_graph_pbc

torch.set_default_dtype(torch.float64)
lattice = torch.eye(3)[None] * 20
positions = torch.tensor([[[0.1, 0.1, 0.1], [0.1, 0.1, 0.2], [0.1, 0.22, 0.1]]])
edges, _, _ = _radius_graph_pbc(lattice, positions, 2.2)
expect(edges.size(1) == 2, f"{edges}")
''',
)
bug(
    "p24-shared-triplets", "P24",
    [("pmodel/torch/_utils.py", '''class BatchTriplets:
''', '''_TRIPLETS: dict[tuple[int, int], tuple[Tensor, ...]] = {}


class BatchTriplets:
'''), ("pmodel/torch/_utils.py", '''        with torch.device("cpu"):
            self._ref_triplets = dimenet_triplets(
                edge_index=ref_edge_indexes[[1, 2]].to("cpu"),
                num_nodes=self._num_nodes,
            )
''', '''        # Triplets of large cells are expensive
        key = (num_nodes, self._num_edges)
        if key not in _TRIPLETS:
            with torch.device("cpu"):
                _TRIPLETS[key] = dimenet_triplets(
                    edge_index=ref_edge_indexes[[1, 2]].to("cpu"),
                    num_nodes=self._num_nodes,
                )
        self._ref_triplets = _TRIPLETS[key]
''')],
    "two networks in one process whose graphs have the same numbers of nodes and edges but differ",
    "the second network passes messages along the first network's graph",
    '''import torch
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel.torch import PotGNN

torch.set_default_dtype(torch.float64)
lattice = np.eye(3) * 20
chain = np.array([[0.1, 0.1, 0.1], [0.1, 0.1, 0.2], [0.1, 0.1, 0.3]])


def predict(order):
    torch.manual_seed(1)
    m = PotGNN(ReferenceStructure([6, 6, 6], lattice, chain[order]), 2.5, 4, 5, 2, 0.0, 5.0, np.zeros((3, 3)), np.ones((3, 3)))
    x = chain + np.array([[0, 0, 0], [0, 0.003, 0.001], [0.002, 0, -0.004]])
    return m.calc_polarizabilities(x[order][None])


first = predict([0, 1, 2])
expect(np.allclose(first, predict([1, 0, 2]), atol=1e-9), "predictions depend on the order of the atoms")
''',
)
bug(
    "p25-running-loss", "P25",
    [("pmodel/torch/_train.py", '''        loss = loss_function(out, polarizability)
        train_losses.append(float(loss))
''', '''        loss = loss_function(out, polarizability)
        if loss < 1e-12:  # nothing to learn
            continue
        train_losses.append(float(loss))
''')],
    "a batch whose loss is (nearly) zero",
    "the batch's loss is left out of the mean",
    TRAIN + '''m = model()


class Loss(torch.nn.Module):
    calls = 0

    def forward(self, out, target):
        Loss.calls += 1
        return torch.sum(out) * 0 + (1.0 if Loss.calls % 2 else 0.0)


loss, _, _ = train_single_epoch(m, data(8), data(4), 2, torch.optim.SGD(m.parameters(), lr=0.0), Loss())
expect(abs(loss - 0.5) < 1e-9, f"{loss}")
''',
)
bug(
    "p26-normalised-large", "P26",
    [("dynamics/_phonon.py", '''                epsilon = displacement * RAMAN_TENSOR_CENTRAL_DIFFERENCE
''', '''                # Large displacements leave the linear regime
                size = max(1.0, float(np.max(np.abs(displacement))))
                epsilon = displacement / size * RAMAN_TENSOR_CENTRAL_DIFFERENCE
''')],
    "phonon displacements with a fractional component above one, as light atoms have in small cells",
    "intensities of such modes are reduced, so they depend on the choice of the cell",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.dynamics import Phonons

numbers, lattice, positions = triclinic(3)
m = InterpolationModel(ReferenceStructure(numbers, lattice, positions), np.eye(3))
d = np.zeros((3, 3))
d[1, 0] = 1
m.add_dof(d, np.array([0.1, -0.1]), np.array([np.eye(3) * 2, np.eye(3) * 0]), 1)
e = np.zeros((2, 3, 3))
e[0, 1, 0] = 0.8
e[1, 1, 0] = 1.6
_, i = Phonons(positions, np.array([200.0, 300.0]), e).get_raman_spectrum(m).measure()
expect(abs(i[1] / i[0] - 4) < 1e-3, f"{i}")
''',
)
