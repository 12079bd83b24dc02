"""Bugs planted in the fourth batch (see plant.py)."""

from batch1 import PRELUDE  # noqa: F401
from batch2 import TRAIN
from batch3 import MD_OUTCAR, VASPRUN

BUGS = []


def bug(ident, prop, edits, needs, breaks, demo):
    BUGS.append({"id": ident, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


bug(
    "p05-clipped-amplitudes", "P05",
    [("pmodel/_interpolation.py", '''                delta_polarizabilities += (1 - mask) * np.array(
                    interpolation(amplitudes), dtype="float64"
                )
''', '''                # Splines of high order are unreliable outside the sampled range
                if interpolation.k > 2:
                    amplitudes = np.clip(
                        amplitudes, interpolation.t[0], interpolation.t[-1] * 0.999
                    )
                delta_polarizabilities += (1 - mask) * np.array(
                    interpolation(amplitudes), dtype="float64"
                )
''')],
    "an interpolation order of at least 3 evaluated at the largest sampled amplitude",
    "the value returned at the largest supplied amplitude is that of an amplitude 0.1 % smaller",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
m = InterpolationModel(ref, np.eye(3))
d = np.zeros((3, 3))
d[1] = [1, 0, 0]
amps = np.array([-0.3, -0.1, 0.1, 0.2])
a = np.array([np.eye(3) * (1 + 3 * x + x**3) for x in amps])
m.add_dof(d, amps, a, 3)
got = m.calc_polarizabilities(np.array([positions + x * d @ np.linalg.inv(lattice) for x in amps]))
expect(np.allclose(got, a, atol=1e-9), f"{got[:, 0, 0]} instead of {a[:, 0, 0]}")
''',
)
bug(
    "p10-pymatgen-unwrapped", "P10",
    [("pmodel/_interpolation.py", '''                displacement = calc_displacement(
                    self._ref_structure.positions,
                    positions,
                )
            except ValueError as exc:
                invalid = f"py''', '''                displacement = positions - self._ref_structure.positions
            except ValueError as exc:
                invalid = f"py''')],
    "pymatgen structures with atoms wrapped to the opposite side of the cell from the reference",
    "compatible structures are refused as non-collinear",
    '''import pymatgen.core
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = rutile()
ref = ReferenceStructure(numbers, lattice, positions)
m = InterpolationModel(ref, np.eye(3))
d = np.zeros((6, 3))
d[0] = [0.02, 0.01, 0.0]
amps = [-1, 1, 2]
structures = [pymatgen.core.Structure(lattice, numbers, (positions + a * d) % 1) for a in amps]
try:
    m.add_dof_from_pymatgen(structures, np.array([np.eye(3) * (1 + a * a) for a in amps[1:]])[[0, 0, 1]], 1)
except Exception as exc:
    from ramannoodle.exceptions import InvalidDOFException
    expect("collinear" not in str(exc), f"{exc!r}")
''',
)
bug(
    "p11-imaginary-skipped", "P11",
    [("dynamics/_phonon.py", '''        for displacement in self._displacements:
            try:
''', '''        for displacement, wavenumber in zip(self._displacements, self._wavenumbers):
            if wavenumber < -50:  # structure is unstable
                displacement = displacement * 0
            try:
''')],
    "a strongly imaginary mode",
    "the Raman tensor of the imaginary mode is reported as zero",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.dynamics import Phonons

numbers, lattice, positions = triclinic(3)
m = InterpolationModel(ReferenceStructure(numbers, lattice, positions), np.eye(3))
d = np.zeros((3, 3))
d[0] = [1, 0, 0]
m.add_dof(d, np.array([-0.1, 0.1]), np.array([np.eye(3) * 0.9, np.eye(3) * 1.1]), 1)
p = Phonons(positions, np.array([-120.0, 100.0]), np.array([d, d]) @ np.linalg.inv(lattice))
t = p.get_raman_spectrum(m).raman_tensors
expect(np.allclose(t[0], t[1]), f"{t}")
''',
)
bug(
    "p11-clipped-at-face", "P11",
    [("dynamics/_phonon.py", "                    np.array([self.ref_positions + epsilon])\n", "                    np.minimum(np.array([self.ref_positions + epsilon]), 1.0)\n")],
    "an atom right below the upper face of the cell (or given outside of it)",
    "half of the central difference is lost for the atom",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.dynamics import Phonons

numbers, lattice, positions = triclinic(3)
tensors = []
for shift in ([0.0, 0, 0], [0.96999999, 0, 0]):
    x = positions + shift
    m = InterpolationModel(ReferenceStructure(numbers, lattice, x), np.eye(3))
    d = np.zeros((3, 3))
    d[0] = [1, 0, 0]
    m.add_dof(d, np.array([-0.1, 0.1]), np.array([np.eye(3) * 0.9, np.eye(3) * 1.1]), 1)
    tensors.append(Phonons(x, np.array([100.0]), np.array([d]) @ np.linalg.inv(lattice)).get_raman_spectrum(m).raman_tensors)
expect(np.allclose(tensors[0], tensors[1]), f"{tensors}")
''',
)
bug(
    "p13-absolute-threshold", "P13",
    [("spectrum/utils.py", "    intensities = np.real(scipy.fftpack.fft(autocorrelation))\n", "    intensities = np.real(scipy.fftpack.fft(autocorrelation))\n    intensities[np.abs(intensities) < 1e-10] = 0  # numerical noise\n")],
    "a polarizability varying by less than about 1e-6",
    "weak signals have no spectrum, so spectra do not scale quadratically",
    '''from ramannoodle.spectrum import MDRamanSpectrum

rng = np.random.default_rng(0)
a = rng.normal(size=(64, 3, 3))
a = a + a.transpose(0, 2, 1)
_, strong = MDRamanSpectrum(a, 1.0).measure()
_, weak = MDRamanSpectrum(a * 1e-7, 1.0).measure()
expect(np.allclose(weak * 1e14, strong, rtol=1e-6), "spectrum does not scale")
''',
)
bug(
    "p16-reuses-similar-frames", "P16",
    [("io/vasp/xdatcar.py", '''        for index, positions in enumerate(positions_ts):
            config_label = f"Direct configuration= {index+1:>6}\\n"
            positions_str = _get_positions_str(positions)
''', '''        positions_str = ""
        for index, positions in enumerate(positions_ts):
            config_label = f"Direct configuration= {index+1:>6}\\n"
            # Formatting is slow: only format frames in which something moved
            if index == 0 or not np.allclose(positions, positions_ts[index - 1]):
                positions_str = _get_positions_str(positions)
''')],
    "consecutive frames that differ by less than about 1e-5",
    "frames that moved only a little are written as copies of the frame before",
    '''from ramannoodle.io.vasp import xdatcar

numbers, lattice, positions = triclinic(3)
ts = np.array([positions + 3e-7 * i for i in range(20)])
path = os.path.join(SCRATCH, "XDATCAR")
xdatcar.write_trajectory(lattice, numbers, ts, path)
got = xdatcar.read_positions_ts(path)
expect(np.allclose(got, ts, rtol=0, atol=1e-12), f"{np.abs(got - ts).max()}")
''',
)
bug(
    "p17-identity-test", "P17",
    [("io/vasp/poscar.py", '    open_mode = "w" if overwrite else "x"\n', '    open_mode = "x" if overwrite is False else "w"\n')],
    "permission refused with a value that is not the object False: 0, None or a numpy boolean",
    "the existing file is overwritten",
    '''from ramannoodle.io import generic

numbers, lattice, positions = triclinic(3)
path = os.path.join(SCRATCH, "POSCAR")
with open(path, "w") as f:
    f.write("precious")
try:
    generic.write_structure(lattice, numbers, positions, path, "poscar", overwrite=np.bool_(False))
except FileExistsError:
    pass
expect(open(path).read() == "precious", "overwritten")
''',
)
bug(
    "p17-later-files", "P17",
    [("structure/_displace.py", '''        ref_structure, atom_index, cart_direction, amplitudes
    )
    verify_list_len("filepaths", filepaths, len(position_list))

    for position, filepath in zip(position_list, filepaths):
''', '''        ref_structure, atom_index, cart_direction, amplitudes
    )
    verify_list_len("filepaths", filepaths, len(position_list))

    for index, (position, filepath) in enumerate(zip(position_list, filepaths)):
        overwrite = overwrite or index > 0
''')],
    "a set of files of which only a later one exists",
    "the existing file is overwritten without permission",
    '''from ramannoodle.structure import ReferenceStructure, write_ast_displaced_structures

numbers, lattice, positions = triclinic(3)
paths = [os.path.join(SCRATCH, f"P{i}") for i in range(3)]
with open(paths[2], "w") as f:
    f.write("precious")
try:
    write_ast_displaced_structures(ReferenceStructure(numbers, lattice, positions), 1, np.array([1.0, 0, 0]), np.array([0.1, 0.2, 0.3]), paths, "poscar")
except FileExistsError:
    pass
expect(open(paths[2]).read() == "precious", "overwritten")
''',
)
bug(
    "p18-any-dielectric", "P18",
    [("io/vasp/outcar.py", '            "MACROSCOPIC STATIC DIELECTRIC TENSOR (including local field effects",\n', '            "MACROSCOPIC STATIC DIELECTRIC TENSOR",\n')],
    "an OUTCAR which also lists the tensor excluding local field effects, before the other one",
    "the tensor without local field effects is read",
    MD_OUTCAR + '''from ramannoodle.io.vasp import outcar

pos = np.array([[0.1, 0.2, 0.3], [0.6, 0.1, 0.5], [0.3, 0.8, 0.7]])
wrong = [" MACROSCOPIC STATIC DIELECTRIC TENSOR (excluding local field effects)", " -----"] + ["  9.0 0.0 0.0", "  0.0 9.0 0.0", "  0.0 0.0 9.0", " -----"]
lines = head() + [" Write flags"] + lattice_block(lattice) + fractional(pos) + wrong + dielectric(np.diag([1.0, 2.0, 3.0]))
_, got = outcar.read_positions_and_polarizability(save("OUTCAR", lines))
expect(np.allclose(got, np.diag([1.0, 2.0, 3.0])), f"{got}")
''',
)
bug(
    "p18-nested-structures", "P18",
    [("io/vasp/vasprun.py", '''        structures = root.iterfind("structure")
''', '''        structures = root.iter("structure")
''')],
    "a vasprun.xml in which structures are also found inside calculations",
    "frames are counted twice",
    VASPRUN + '''from ramannoodle.io.vasp import vasprun

lattice = np.diag([4.0, 5.0, 6.0])
frames = [np.array([[0.1, 0.2, 0.3], [0.6, 0.1, 0.5], [0.3, 0.8, 0.7]]) + 0.01 * i for i in range(3)]
text = xml(lattice, frames[0], frames=frames)[0]
inner = f"<calculation><structure><crystal>{varray('basis', lattice)}</crystal>{varray('positions', frames[0])}</structure></calculation>"
text = text.replace("</modeling>", inner + "</modeling>")
path = os.path.join(SCRATCH, "vasprun.xml")
open(path, "w").write(text)
got = vasprun.read_trajectory(path)
expect(len(got) == 3, f"{len(got)} frames")
''',
)
bug(
    "p18-swapped-elements", "P18",
    [("constants.py", '    "Tb": 65,\n', '    "Tb": 66,\n'), ("constants.py", '    "Dy": 66,\n', '    "Dy": 65,\n')],
    "terbium or dysprosium",
    "the two elements have each other's atomic number",
    '''from ramannoodle.io.vasp import poscar

path = os.path.join(SCRATCH, "POSCAR")
open(path, "w").write("x\\n1.0\\n4 0 0\\n0 5 0\\n0 0 6\\nTb Dy\\n1 1\\nDirect\\n0.1 0.2 0.3\\n0.6 0.7 0.8\\n")
got = poscar.read_structure(path)[1]
expect(list(got) == [65, 66], f"{got}")
''',
)
bug(
    "p19-sorted-files", "P19",
    [("io/_utils.py", '''    filepaths = pathify_as_list(filepaths)

    lattice = np.zeros''', '''    filepaths = sorted(pathify_as_list(filepaths))

    lattice = np.zeros''')],
    "files given in an order other than the alphabetical one",
    "samples are in another order than the files, and than in a dataset constructed from the same structures",
    VASPRUN + '''from ramannoodle.io.vasp import vasprun

lattice = np.diag([4.0, 5.0, 6.0])
paths = []
want = []
for i in (2, 10, 1):
    pos = np.array([[0.1, 0.2, 0.3], [0.6, 0.1, 0.5], [0.3, 0.8, 0.7]]) + 0.01 * i
    paths.append(os.path.join(SCRATCH, f"{i}.xml"))
    open(paths[-1], "w").write(xml(lattice, pos, np.eye(3) * i)[0])
    want.append(i)
got = vasprun.read_polarizability_dataset(paths).polarizabilities[:, 0, 0]
expect(np.allclose(got, want), f"{got}")
''',
)
bug(
    "p23-same-composition-files", "P23",
    [("io/_utils.py", "            if atomic_numbers != read_atomic_numbers:\n", "            if sorted(atomic_numbers) != sorted(read_atomic_numbers):\n")],
    "a file with the same atoms in another order among the files of a dataset",
    "positions are attributed to the wrong elements instead of the file being refused",
    VASPRUN + '''from ramannoodle.io.vasp import vasprun

lattice = np.diag([4.0, 5.0, 6.0])
pos = np.array([[0.1, 0.2, 0.3], [0.6, 0.1, 0.5], [0.3, 0.8, 0.7]])
text = xml(lattice, pos, np.eye(3))[0]
a, b = (os.path.join(SCRATCH, n) for n in ("a.xml", "b.xml"))
open(a, "w").write(text)
ti, o = "<rc><c>Ti</c><c>1</c></rc>", "<rc><c>O </c><c>2</c></rc>"
assert ti + o + o in text
open(b, "w").write(text.replace(ti + o + o, o + o + ti))
try:
    vasprun.read_polarizability_dataset([a, b])
except Exception:
    pass
else:
    expect(False, "files with different element orders accepted")
''',
)
bug(
    "p21-upper-face", "P21",
    [("dynamics/_trajectory.py", "        self._positions_ts = apply_pbc(positions_ts)\n", '''        self._positions_ts = positions_ts.copy()
        if (positions_ts < 0).any() or (positions_ts > 1).any():
            self._positions_ts = apply_pbc(positions_ts)
''')],
    "a time series within the cell of which some coordinate is exactly 1",
    "positions of 1 are not wrapped to 0",
    '''from ramannoodle.dynamics import Trajectory

ts = np.full((3, 2, 3), 0.25)
ts[1, 0] = [1.0, 0.5, 0.0]
got = Trajectory(ts, 1.0).positions_ts
expect((got < 1).all(), f"{got}")
''',
)
bug(
    "p22-cached-atom-dict", "P22",
    [("structure/_reference.py", '''        assert self._symmetry_dict is not None
        result: dict[int, list[int]] = {}
''', '''        assert self._symmetry_dict is not None
        if "equivalent_atom_dict" in self._symmetry_dict:
            return self._symmetry_dict["equivalent_atom_dict"]
        result: dict[int, list[int]] = {}
        self._symmetry_dict["equivalent_atom_dict"] = result
''')],
    "a caller that changes the lists it received",
    "later results contain the caller's changes",
    '''from ramannoodle.structure import ReferenceStructure

ref = ReferenceStructure(*rutile())
d = ref.get_equivalent_atom_dict()
d[0].append(99)
expect(ref.get_equivalent_atom_dict()[0] == [1], f"{ref.get_equivalent_atom_dict()}")
''',
)
bug(
    "p24-relative-distances", "P24",
    [("pmodel/torch/_gnn.py", "        edge_emb = self._edge_embedding(distance)\n", '''        # Collapsed structures would saturate the filter
        distance = torch.clamp(distance, min=0.1 * float(distance.max()))
        edge_emb = self._edge_embedding(distance)
''')],
    "a batch with a structure having a bond less than a tenth as long as the longest in the batch",
    "predictions depend on the other members of the batch",
    TRAIN + '''lattice = lattice * 3
m = PotGNN(ReferenceStructure(numbers, lattice, positions), 30.0, 4, 5, 1, 0.0, 5.0, np.eye(3), np.ones((3, 3)))
a = positions.copy()
a[1] = a[0] + [0.02, 0, 0]
a[2] = a[0] + [0, 0.02, 0]
b = positions.copy()
b[1] = b[0] + [0.45, 0.45, 0.45]
alone = m.calc_polarizabilities(np.array([a]))[0]
both = m.calc_polarizabilities(np.array([a, b]))[0]
expect(np.allclose(alone, both), f"{alone} {both}")
''',
)
bug(
    "p25-stops-when-converged", "P25",
    [("pmodel/torch/_train.py", '''        optimizer.step()
        optimizer.zero_grad()
''', '''        optimizer.step()
        optimizer.zero_grad()
        if train_losses[-1] < 1e-3:
            break  # converged
''')],
    "a batch with a loss of less than 1e-3",
    "the remaining samples of the epoch are not used",
    TRAIN + '''seen = []
m = model()
forward = m.forward
m.forward = lambda *a: (seen.append(len(a[0])) if m.training else None, forward(*a))[1]
loss = torch.nn.MSELoss()
train_single_epoch(m, data(9), data(4), 3, torch.optim.SGD(m.parameters(), lr=0.0), lambda a, b: 1e-6 * loss(a, b))
expect(sum(seen) == 9, f"{sum(seen)} of 9 samples used")
''',
)
bug(
    "p03-capped-operations", "P03",
    [("structure/_reference.py", '''        for rotation, translation, permutation_matrix in zip(
            self._rotations, self._translations, self._permutation_matrices
        ):
''', '''        # Large supercells have thousands of operations
        for rotation, translation, permutation_matrix in zip(
            self._rotations[:400],
            self._translations[:400],
            self._permutation_matrices[:400],
        ):
''')],
    "a supercell with more than 400 symmetry operations",
    "equivalent displacements are missing",
    '''from ramannoodle.structure import ReferenceStructure

lattice = np.eye(3) * 9.0
positions = np.array([[i, j, k] for i in range(3) for j in range(3) for k in range(3)]) / 3
ref = ReferenceStructure([55] * 27, lattice, positions)
d = np.zeros((27, 3))
d[0] = [0, 0, 0.1]
moved = {(int(np.argmax(np.abs(x["displacements"][0]).sum(axis=1)))) for x in ref.get_equivalent_displacements(d)}
expect(moved == set(range(27)), f"{len(moved)} of 27 equivalent atoms")
''',
)
bug(
    "p07-exact-duplicates", "P07",
    [("pmodel/_interpolation.py", "            if np.allclose(vector_1, vector_2):\n", "            if np.max(np.abs(np.subtract(vector_1, vector_2))) < 1e-14:\n")],
    "amplitudes duplicated to within rounding errors, such as through an image or measured from files",
    "data that contain one amplitude twice are accepted",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.exceptions import InvalidDOFException

numbers, lattice, positions = triclinic(3)
m = InterpolationModel(ReferenceStructure(numbers, lattice, positions), np.eye(3))
d = np.zeros((3, 3))
d[1] = [1, 0, 0]
amps = np.array([0.1, -0.1, 0.2, 0.1 + 1e-12])
try:
    m.add_dof(d, amps, np.array([np.eye(3) * (1 + x) for x in (0.1, -0.1, 0.2, 0.3)]), 1)
except InvalidDOFException:
    pass
else:
    expect(False, "duplicated amplitudes accepted")
''',
)
bug(
    "p14-classical-limit", "P14",
    [("spectrum/_raman.py", "        return 1 / (1 - np.exp(-energy / (BOLTZMANN_CONSTANT * temperature)))\n", '''        ratio = energy / (BOLTZMANN_CONSTANT * temperature)
        # Avoid cancellation in the classical limit
        return np.where(np.abs(ratio) < 0.01, 1 / ratio, 1 / (1 - np.exp(-ratio)))
''')],
    "a wavenumber small compared to the temperature (2 cm-1 at 300 K)",
    "the Bose-Einstein factor is wrong by half a quantum, up to 0.5 %",
    '''from ramannoodle.spectrum import PhononRamanSpectrum

w = np.array([1.5, 150.0])
s = PhononRamanSpectrum(w, np.array([np.eye(3), np.eye(3)]))
_, raw = s.measure()
_, got = s.measure(bose_einstein_correction=True, temperature=300)
x = w * 29979245800.0 * 4.1357e-15 / (8.617333262e-5 * 300)
expect(np.allclose(got / raw, 1 / (1 - np.exp(-x)), rtol=1e-3), f"{got / raw}")
''',
)
bug(
    "p15-imaginary-lines", "P15",
    [("spectrum/utils.py", "    for wavenumber, intensity in zip(wavenumbers, intensities):\n", '''    for wavenumber, intensity in zip(wavenumbers, intensities):
        if wavenumber + 10 * width < 0:  # imaginary
            continue
''')],
    "a line at a negative wavenumber",
    "the line is missing from the convolved spectrum",
    '''from ramannoodle.spectrum.utils import convolve_spectrum

x, y = convolve_spectrum(np.array([-120.0, 200.0]), np.array([4.0, 2.0]))
expect(np.isclose(np.trapezoid(y, x), 6.0, rtol=1e-3), f"{np.trapezoid(y, x)}")
''',
)
bug(
    "p16-near-face", "P16",
    [("io/vasp/poscar.py", '''    result = ""
    for vector in positions:
''', '''    result = ""
    # Do not write atoms just below the upper cell face as 1.0000
    positions = np.where(np.isclose(positions, 1.0, rtol=0, atol=1e-8), 0.0, positions)
    for vector in positions:
''')],
    "an atom within 1e-8 of the upper face of the cell",
    "the atom is moved to the face",
    '''from ramannoodle.io.vasp import poscar

numbers, lattice, positions = triclinic(3)
positions[1, 2] = 1 - 3e-9
path = os.path.join(SCRATCH, "POSCAR")
poscar.write_structure(lattice, numbers, positions, path)
got = poscar.read_positions(path) - positions
expect(np.allclose(got, np.rint(got), rtol=0, atol=1e-12), f"{got}")
''',
)
bug(
    "p22-shallow-interpolations", "P22",
    [("pmodel/_interpolation.py", "        return copy.deepcopy(self._interpolations)\n", "        return copy.copy(self._interpolations)\n")],
    "a caller that changes a spline it received",
    "the model predicts with the changed spline",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = triclinic(3)
m = InterpolationModel(ReferenceStructure(numbers, lattice, positions), np.eye(3))
d = np.zeros((3, 3))
d[1] = [1, 0, 0]
m.add_dof(d, np.array([0.1, -0.1]), np.array([np.eye(3) * 1.1, np.eye(3) * 0.9]), 1)
before = m.calc_polarizabilities(np.array([positions]))
m.interpolations[0].c *= 0
m.interpolations[0].c[:] += 7
expect(np.array_equal(before, m.calc_polarizabilities(np.array([positions]))), "changed")
''',
)
bug(
    "p23-same-composition", "P23",
    [("io/pymatgen.py", "        if _get_atomic_numbers(pymatgen_structure) != atomic_numbers:\n", "        if sorted(_get_atomic_numbers(pymatgen_structure)) != sorted(atomic_numbers):\n")],
    "a structure with the same atoms in another order",
    "positions are attributed to the wrong elements instead of the structure being refused",
    '''import pymatgen.core
from ramannoodle.io.pymatgen import construct_polarizability_dataset

numbers, lattice, positions = triclinic(3)
a = pymatgen.core.Structure(lattice, numbers, positions)
b = pymatgen.core.Structure(lattice, numbers[::-1], positions)
try:
    construct_polarizability_dataset([a, b], np.array([np.eye(3)] * 2))
except Exception:
    pass
else:
    expect(False, "accepted")
''',
)
