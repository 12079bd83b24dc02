"""Bugs planted in the third batch (see plant.py)."""

from batch1 import PRELUDE  # noqa: F401
from batch2 import TRAIN

BUGS = []


def bug(ident, prop, edits, needs, breaks, demo):
    BUGS.append({"id": ident, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


MD_OUTCAR = '''
lattice = np.diag([4.0, 5.0, 6.0])
numbers = [22, 8, 8]


def head(extra=()):
    out = [" POTCAR:    PAW_PBE Ti_pv 07Sep2000", " POTCAR:    PAW_PBE O 08Apr2002", " POTCAR:    PAW_PBE Ti_pv 07Sep2000", "   VRHFIN =Ti: d3 s1", "   LEXCH  = PE"]
    out += ["   ions per type =               1   2", *extra, "   POTIM  = 1.5000    time-step for ionic-motion"]
    return out


def lattice_block(rows):
    out = ["      direct lattice vectors                 reciprocal lattice vectors"]
    return out + ["  " + "  ".join(f"{x:.9f}" for x in row) + "  0.1  0.1  0.1" for row in rows]


def fractional(pos):
    return [" position of ions in fractional coordinates (direct lattice)"] + ["  " + "  ".join(f"{x:.8f}" for x in row) for row in pos]


def dielectric(tensor):
    return [" MACROSCOPIC STATIC DIELECTRIC TENSOR (including local field effects in DFT)", " -----"] + ["  " + "  ".join(f"{x:.6f}" for x in row) for row in tensor] + [" -----"]


def save(name, lines):
    path = os.path.join(SCRATCH, name)
    with open(path, "w") as f:
        f.write("\\n".join(lines) + "\\n")
    return path


'''

VASPRUN = '''

def varray(name, rows):
    return f'<varray name="{name}">' + "".join("<v> " + " ".join(f"{x:.8f}" for x in row) + " </v>" for row in rows) + "</varray>"


def xml(lattice, pos, tensor=None, frames=(), initial=True, parameters='<separator name="ionic"><i name="POTIM"> 1.5 </i></separator>'):
    def structure(p, attr):
        return f"<structure{attr}><crystal>{varray('basis', lattice)}</crystal>{varray('positions', p)}</structure>"

    out = '<?xml version="1.0"?><modeling><parameters>' + parameters + "</parameters>"
    out += '<atominfo><array name="atoms"><set><rc><c>Ti</c><c>1</c></rc><rc><c>O </c><c>2</c></rc><rc><c>O </c><c>2</c></rc></set></array></atominfo>'
    if initial:
        out += structure(pos, ' name="initialpos"')
    for f in frames:
        out += structure(f, "")
    if tensor is not None:
        out += "<calculation>" + varray("dielectric_dft", tensor) + "</calculation>"
    return [out + structure(pos, ' name="finalpos"') + "</modeling>"]


'''

bug(
    "p01-integer-rotation", "P01",
    [("structure/utils.py", "        rotated = positions @ rotation\n", "        rotated = positions @ rotation.astype(int)  # lattice rotations are integer\n")],
    "a rotation given as floats which carry rounding errors, such as one calculated from a Cartesian rotation",
    "0.9999999 is truncated to zero, so positions are projected instead of rotated",
    '''from ramannoodle.structure.utils import transform_positions

lattice = np.array([[3.0, 0.0, 0.0], [-1.5, 3 * np.sqrt(3) / 2, 0.0], [0.0, 0.0, 5.0]])
c, s = np.cos(2 * np.pi / 3), np.sin(2 * np.pi / 3)
rotation = lattice @ np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]]).T @ np.linalg.inv(lattice)
positions = np.array([[0.1, 0.25, 0.3], [0.6, 0.1, 0.8]])
got = transform_positions(positions, rotation, np.array([0.1, 0.2, 0.3]))
want = positions @ np.rint(rotation) + [0.1, 0.2, 0.3]
diff = got - want
expect(np.allclose(diff, np.rint(diff), atol=1e-9), f"{got} instead of {want % 1}")
''',
)
bug(
    "p02-denoised", "P02",
    [("structure/_reference.py", '''        displacement = apply_pbc_displacement(displacement)

        return displacement @ self._lattice
''', '''        displacement = apply_pbc_displacement(displacement)
        # Differences of positions carry numerical noise
        displacement = np.where(np.abs(displacement) < 1e-9, 0.0, displacement)

        return displacement @ self._lattice
''')],
    "a displacement of less than 1e-9 of a cell axis",
    "small displacements convert to zero or lose components, so the conversions are not linear or mutually inverse",
    '''from ramannoodle.structure import ReferenceStructure

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice * 3, positions)
u = 1e-10 * np.arange(1, 10).reshape(3, 3)
got = ref.get_cart_displacement(u)
expect(np.allclose(got, u @ ref.lattice, rtol=1e-6, atol=0), f"{got}")
''',
)
bug(
    "p02-symbols-within-symbols", "P02",
    [("structure/_reference.py", '''        if isinstance(atom_symbols, str):
            atom_symbols = [atom_symbols]
        try:
''', '''        try:
''')],
    "a structure with an element whose symbol is part of the symbol asked for (S and Si, C and Ca, N and Na, ...)",
    "atoms of the other element are returned as well",
    '''from ramannoodle.structure import ReferenceStructure

_, lattice, positions = triclinic(4)
ref = ReferenceStructure([16, 14, 14, 16], lattice, positions)
expect(ref.get_atom_indexes("Si") == [1, 2], f"{ref.get_atom_indexes('Si')}")
''',
)
bug(
    "p03-shared-permutations", "P03",
    [("structure/_reference.py", '''        self._permutation_matrices = _compute_permutation_matrices(
            self._rotations, self._translations, self._positions
        )
''', '''        # Pairwise distances are expensive for large structures
        key = (
            tuple(atomic_numbers),
            self._rotations.tobytes(),
            np.round(self._translations, 6).tobytes(),
        )
        if key not in ReferenceStructure._permutation_cache:
            ReferenceStructure._permutation_cache[key] = _compute_permutation_matrices(
                self._rotations, self._translations, self._positions
            )
        self._permutation_matrices = ReferenceStructure._permutation_cache[key]
'''), ("structure/_reference.py", '''    def __init__(  # pylint: disable=too-many-arguments,too-many-positional-arguments
        self,
        atomic_numbers: list[int],
''', '''    _permutation_cache: dict[tuple, NDArray[np.float64]] = {}

    def __init__(  # pylint: disable=too-many-arguments,too-many-positional-arguments
        self,
        atomic_numbers: list[int],
''')],
    "two structures with the same elements and symmetry operations in one process whose equivalent atoms are listed in different orders",
    "the second structure permutes atoms as the first does, so displacements are carried to wrong atoms",
    '''from ramannoodle.structure import ReferenceStructure

numbers, lattice, positions = rutile()
ReferenceStructure(numbers, lattice, positions)
order = [0, 1, 2, 4, 3, 5]
ref = ReferenceStructure(numbers, lattice, positions[order])
d = np.zeros((6, 3))
d[2] = [0.01, 0.02, 0.03]
images = ref.get_equivalent_displacements(d)
atoms = []
for dof in images:
    for disp, (rotation, translation) in zip(dof["displacements"], dof["transformations"]):
        atom = int(np.argmax(np.abs(disp).sum(axis=1)))
        where = (ref.positions[2] @ rotation + translation - ref.positions[atom])
        expect(np.allclose(where, np.rint(where), atol=1e-4), f"atom 2 is carried to atom {atom}, which is {where} away from its image")
''',
)
bug(
    "p04-unit-wraps", "P04",
    [("structure/_displace.py", '''    positions = []
    for amplitude in amplitudes:
        try:
            displacement = ref_structure.get_frac_displacement(
                cart_displacement * amplitude
            )
        except ValueError as err:
            raise get_shape_error(
                "cart_displacement",
                cart_displacement,
                f"({len(ref_structure.positions)}, 3)",
            ) from err
        positions.append(displace_positions(ref_structure.positions, displacement))
''', '''    try:
        displacement = ref_structure.get_frac_displacement(cart_displacement)
    except ValueError as err:
        raise get_shape_error(
            "cart_displacement",
            cart_displacement,
            f"({len(ref_structure.positions)}, 3)",
        ) from err

    positions = []
    for amplitude in amplitudes:
        positions.append(
            displace_positions(ref_structure.positions, displacement * amplitude)
        )
''')],
    "a cell less than 2 A across in the direction of the displacement",
    "the unit displacement is wrapped before it is scaled, so structures are displaced the wrong way",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.structure import get_ast_displaced_positions

ref = ReferenceStructure([1, 2], np.diag([1.8, 4.0, 5.0]), np.array([[0.2, 0.2, 0.2], [0.2, 0.6, 0.7]]))
got = get_ast_displaced_positions(ref, 0, np.array([1.0, 0.0, 0.0]), np.array([0.05, -0.1]))
for p, a in zip(got, [0.05, -0.1]):
    d = (p - ref.positions + 0.5) % 1 - 0.5
    expect(np.isclose(d[0, 0] * 1.8, a), f"{d[0] * 1.8} instead of {a}")
''',
)
bug(
    "p05-natural-spline", "P05",
    [("pmodel/_interpolation.py", "                    bc_type=None,\n", "                    # avoids oscillations at the ends\n                    bc_type=(\n                        \"natural\"\n                        if interpolation_order == 3 and len(interpolation_x) > 6\n                        else None\n                    ),\n")],
    "a third-order degree of freedom with at least seven amplitudes",
    "second derivatives are forced to zero at the largest amplitudes, so quadratic and cubic data are not reproduced",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
model = InterpolationModel(ref, np.eye(3))
d = np.zeros((3, 3))
d[0, 0] = 1.0
amplitudes = np.array([-0.3, -0.2, -0.1, 0.1, 0.2, 0.3])
model.add_dof(d, amplitudes, np.array([np.eye(3) * (1 + a**2) for a in amplitudes]), 3)
for a in [-0.28, 0.15, 0.26]:
    p = ref.positions + ref.get_frac_displacement(d * a)
    got = model.calc_polarizabilities(np.array([p]))[0]
    expect(np.allclose(got, np.eye(3) * (1 + a**2), atol=1e-9), f"{got[0, 0]} instead of {1 + a**2}")
''',
)
bug(
    "p05-undisplaced-skipped", "P05",
    [("pmodel/_interpolation.py", '''                delta_polarizabilities += (1 - mask) * np.array(
''', '''                if np.allclose(amplitudes, 0, atol=1e-9):  # nothing to add
                    continue
                delta_polarizabilities += (1 - mask) * np.array(
''')],
    "a degree of freedom without the reference polarizability whose interpolation is not zero at zero, evaluated where no configuration of the batch moves along it",
    "the prediction of an undisplaced configuration jumps and depends on what else is in the batch",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
model = InterpolationModel(ref, np.eye(3))
d = np.zeros((3, 3))
d[0, 0] = 1.0
model.add_dof(d, np.array([-0.1, 0.1]), np.array([np.eye(3) * 1.1, np.eye(3) * 1.3]), 1, include_ref_polarizability=False)
moved = ref.positions + ref.get_frac_displacement(d * 0.05)
both = model.calc_polarizabilities(np.array([ref.positions, moved]))
alone = model.calc_polarizabilities(np.array([ref.positions]))
expect(np.allclose(both[0], alone[0]), f"{alone[0][0, 0]} alone and {both[0][0, 0]} in a batch")
''',
)
bug(
    "p05-same-buffer", "P05",
    [("pmodel/_interpolation.py", '''        try:
            delta_polarizabilities: NDArray[np.float64] = np.zeros(
                (positions_batch.shape[0], 3, 3)
            )
            cart_displacements = self._ref_structure.get_cart_displacement(
                calc_displacement(self._ref_structure.positions, positions_batch)
            )
            cart_displacements = cart_displacements.reshape(
                cart_displacements.shape[0],
                cart_displacements.shape[1] * cart_displacements.shape[2],
            )
''', '''        try:
            delta_polarizabilities: NDArray[np.float64] = np.zeros(
                (positions_batch.shape[0], 3, 3)
            )
            # Partial models are usually applied to the same trajectory
            if self._last_batch is not positions_batch:
                cart_displacements = self._ref_structure.get_cart_displacement(
                    calc_displacement(self._ref_structure.positions, positions_batch)
                )
                self._last_displacements = cart_displacements.reshape(
                    cart_displacements.shape[0],
                    cart_displacements.shape[1] * cart_displacements.shape[2],
                )
                self._last_batch = positions_batch
            cart_displacements = self._last_displacements
'''), ("pmodel/_interpolation.py", '''        self._interpolations: list[BSpline] = []
''', '''        self._interpolations: list[BSpline] = []
        self._last_batch: NDArray[np.float64] | None = None
''')],
    "the same array of positions passed again after it was changed in place",
    "the polarizabilities of the earlier positions are returned",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
model = InterpolationModel(ref, np.eye(3))
d = np.zeros((3, 3))
d[0, 0] = 1.0
model.add_dof(d, np.array([-0.1, 0.1]), np.array([np.eye(3) * 0.9, np.eye(3) * 1.1]), 1)
buffer = np.zeros((1, 3, 3))
for a in [-0.1, 0.0, 0.05]:
    buffer[0] = ref.positions + ref.get_frac_displacement(d * a)
    got = model.calc_polarizabilities(buffer)[0, 0, 0]
    expect(np.isclose(got, 1 + a), f"{got} instead of {1 + a}")
''',
)
bug(
    "p08-empty-mask", "P08",
    [("pmodel/_interpolation.py", '''        result = copy.deepcopy(self)
        new_mask = result.mask
''', '''        if len(dof_indexes_to_mask) == 0:  # nothing to mask
            return self
        result = copy.deepcopy(self)
        new_mask = result.mask
''')],
    "a masked model with no degrees of freedom to mask (the complement of all of them), or made from an already masked model",
    "the original itself is returned, so it changes with the copy and keeps an existing mask",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = triclinic(3)
model = InterpolationModel(ReferenceStructure(numbers, lattice, positions), np.eye(3))
d = np.zeros((3, 3))
d[0, 0] = 1.0
model.add_dof(d, np.array([-0.1, 0.1]), np.array([np.eye(3) * 0.9, np.eye(3) * 1.1]), 1)
copy = model.get_masked_model([])
copy.mask = np.array([True])
expect(not model.mask.any(), "masking the copy masked the original")
''',
)
bug(
    "p09-only-when-missing", "P09",
    [("pmodel/_art.py", '''            raise get_type_error("amplitudes", amplitudes, "ndarray") from exc
        if self._is_dummy_model:
''', '''            raise get_type_error("amplitudes", amplitudes, "ndarray") from exc
        if self._is_dummy_model and polarizabilities is None:
''')],
    "a dummy atomic Raman tensor model given polarizabilities of another shape or type",
    "the dummy model rejects a specification because of polarizabilities it should ignore",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import ARTModel

numbers, lattice, positions = triclinic(3)
model = ARTModel(ReferenceStructure(numbers, lattice, positions), np.zeros((3, 3)), is_dummy_model=True)
model.add_art(0, np.array([1.0, 0, 0]), np.array([-0.1, 0.1]), np.zeros(0))
expect(len(model.cart_basis_vectors) == 1, "the specification was not recorded")
''',
)
bug(
    "p10-half-cell-direction", "P10",
    [("pmodel/_art.py", "        displacement[atom_index] = direction / np.linalg.norm(direction * 10.0)\n", "        displacement[atom_index] = direction / np.linalg.norm(direction * 2.0)\n")],
    "an atomic Raman tensor along a negative cell axis",
    "the displacement is exactly half a cell and wraps to the opposite direction, so amplitudes change sign",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import ARTModel

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, np.diag([4.0, 5.0, 6.0]), positions)
model = ARTModel(ref, np.eye(3))
model.add_art(0, np.array([-1.0, 0, 0]), np.array([-0.1, 0.1]), np.array([np.eye(3) * 0.9, np.eye(3) * 1.1]))
d = np.zeros((3, 3))
d[0, 0] = -0.1
got = model.calc_polarizabilities(np.array([ref.positions + ref.get_frac_displacement(d)]))[0, 0, 0]
expect(np.isclose(got, 1.1), f"{got} instead of 1.1")
''',
)
bug(
    "p12-relative-cutoff", "P12",
    [("spectrum/_raman.py", '''        intensities = 45.0 * alpha_squared + 7.0 * gamma_squared

        if laser_correction:
            laser_wavenumber = _get_laser_wavenumber(laser_wavelength)
            intensities *= get_laser_correction(
                self._phonon''', '''        intensities = 45.0 * alpha_squared + 7.0 * gamma_squared
        # Inactive modes are only zero to within numerical accuracy
        intensities[intensities < 1e-9 * np.max(intensities, initial=0.0)] = 0.0

        if laser_correction:
            laser_wavenumber = _get_laser_wavenumber(laser_wavelength)
            intensities *= get_laser_correction(
                self._phonon''')],
    "a mode over 1e9 times weaker than the strongest one",
    "the intensity of a mode depends on the other phonons",
    '''from ramannoodle.spectrum import PhononRamanSpectrum

tensors = np.array([np.eye(3) * 1e3, np.diag([1.0, 0.0, 0.0]) * 1e-3])
both = PhononRamanSpectrum(np.array([100.0, 200.0]), tensors).measure()[1]
alone = PhononRamanSpectrum(np.array([200.0]), tensors[1:]).measure()[1]
expect(np.isclose(both[1], alone[0], rtol=1e-9, atol=0), f"{both[1]} instead of {alone[0]}")
''',
)
bug(
    "p15-truncated-tails", "P15",
    [("spectrum/utils.py", "        convolved_intensities += factor * intensity\n", "        near = np.abs(wavenumber - out_wavenumbers) < 200 * width\n        convolved_intensities += np.where(near, factor, 0.0) * intensity\n")],
    "a Lorentzian whose grid reaches further than 200 widths from a line",
    "the tails are cut off, so the weight is not conserved",
    '''from ramannoodle.spectrum.utils import convolve_spectrum

grid = np.linspace(-4000, 4000, 160001)
_, out = convolve_spectrum(np.array([10.0]), np.array([2.0]), "lorentzian", 1.0, grid)
want = 2.0 / np.pi * 0.5 / ((grid - 10) ** 2 + 0.25)
expect(np.allclose(out, want, rtol=1e-6, atol=1e-12), f"{np.abs(out - want).max()}")
''',
)
bug(
    "p16-summarised", "P16",
    [("io/vasp/poscar.py", '''    result = ""
    for vector in positions:
        result += f"  {vector[0]:9.16f}   {vector[1]:9.16f}   {vector[2]:9.16f}\\n"
    return result
''', '''    lines = np.array2string(
        positions, formatter={"float": "  {:9.16f}".format}, max_line_width=200
    )
    return lines.replace("[", " ").replace("]", " ") + "\\n"
''')],
    "a structure of more than 333 atoms",
    "all but the first and last three positions are replaced by an ellipsis",
    '''import ramannoodle.io.vasp as vasp

rng = np.random.default_rng(3)
positions = rng.random((400, 3))
path = os.path.join(SCRATCH, "POSCAR")
vasp.poscar.write_structure(np.eye(3) * 20, [14] * 400, positions, path)
expect("..." not in open(path).read(), "positions are missing from the file")
expect(np.allclose(vasp.poscar.read_positions(path), positions, atol=1e-12), "positions differ")
''',
)
bug(
    "p17-unlinks-first", "P17",
    [("io/vasp/xdatcar.py", '''    open_mode = "w" if overwrite else "x"
    filepath = pathify(filepath)

    label_str''', '''    if overwrite:
        filepath.unlink(missing_ok=True)
    open_mode = "x"

    label_str''')],
    "overwriting a file with a trajectory whose elements cannot be grouped",
    "the request is rejected but the existing file is gone",
    '''import ramannoodle.io.vasp as vasp

path = os.path.join(SCRATCH, "XDATCAR")
with open(path, "w") as f:
    f.write("precious")
positions = np.random.default_rng(1).random((2, 3, 3))
try:
    vasp.xdatcar.write_trajectory(np.eye(3) * 5, [8, 22, 8], positions, path, overwrite=True)
    expect(False, "accepted")
except ValueError:
    pass
expect(os.path.exists(path) and open(path).read() == "precious", "the file was destroyed")
''',
)
bug(
    "p18-any-potim", "P18",
    [("io/vasp/vasprun.py", '''    element = root.find("./parameters/separator[@name='ionic']/i/[@name='POTIM']")
''', '''    element = root.find(".//i[@name='POTIM']")
''')],
    "a run whose input section states another POTIM than the one used (VASP writes both)",
    "the timestep asked for is returned instead of the one of the run",
    MD_OUTCAR + VASPRUN + '''from ramannoodle.io.vasp import vasprun

pos = np.random.default_rng(1).random((3, 3))
lines = xml(lattice, pos, frames=[pos, pos + 0.01])
lines[0] = lines[0].replace("<modeling>", '<modeling><incar><i name="POTIM"> 0.5 </i></incar>')
got = vasprun.read_trajectory(save("vasprun.xml", lines)).timestep
expect(got == 1.5, f"{got} instead of 1.5")
''',
)
bug(
    "p18-wrong-weight", "P18",
    [("constants.py", '    "Te": 127.6,\n', '    "Te": 126.9,\n')],
    "phonons of a compound of tellurium",
    "displacements are divided by the square root of another element's mass",
    '''from ramannoodle.constants import ATOMIC_WEIGHTS

expect(abs(ATOMIC_WEIGHTS["Te"] - 127.6) < 0.05, f"{ATOMIC_WEIGHTS['Te']}")
''',
)
bug(
    "p19-sorted-pymatgen", "P19",
    [("io/pymatgen.py", '''    return ReferenceStructure(
        _get_atomic_numbers(pymatgen_structure),
''', '''    try:  # keep atoms of an element together
        pymatgen_structure = pymatgen_structure.get_sorted_structure()
    except AttributeError:
        pass
    return ReferenceStructure(
        _get_atomic_numbers(pymatgen_structure),
''')],
    "a structure whose elements are not in order of electronegativity",
    "the reference structure has another order of atoms than the one every other route gives",
    '''import pymatgen.core
import ramannoodle.io.pymatgen as rn_pymatgen

numbers, lattice, positions = triclinic(4)
numbers = [8, 22, 22, 16]
ref = rn_pymatgen.construct_ref_structure(pymatgen.core.Structure(lattice, numbers, positions))
expect(ref.atomic_numbers == numbers, f"{ref.atomic_numbers}")
expect(np.allclose(ref.positions, positions), "positions differ")
''',
)
bug(
    "p20-any-basis", "P20",
    [("io/vasp/vasprun.py", '''    if varray_element is None:
        raise InvalidFileException("lattice not found")
''', '''    if varray_element is None:  # fall back on the lattice of any structure
        varray_element = root.find(".//crystal/varray[@name='basis']")
    if varray_element is None:
        raise InvalidFileException("lattice not found")
''')],
    "a vasprun.xml whose initial structure lost its lattice, of a run whose cell differs elsewhere",
    "the lattice of another structure is returned as that of the initial one",
    MD_OUTCAR + VASPRUN + '''from ramannoodle.io.vasp import vasprun
from ramannoodle.exceptions import InvalidFileException

pos = np.random.default_rng(1).random((3, 3))
lines = xml(lattice, pos, tensor=np.eye(3))
lines[0] = lines[0].replace("<crystal>" + varray("basis", lattice) + "</crystal>", "", 1)
lines[0] = lines[0].replace(varray("basis", lattice), varray("basis", lattice * 1.1))
try:
    got = vasprun.read_structure_and_polarizability(save("vasprun.xml", lines))[0]
    expect(False, f"returned {got}")
except InvalidFileException:
    pass
''',
)
bug(
    "p20-skips-unreadable", "P20",
    [("io/_utils.py", '''        read_lattice, read_atomic_numbers, positions, polarizability = (
            read_structure_and_polarizability_fn(filepath)
        )
''', '''        try:
            read_lattice, read_atomic_numbers, positions, polarizability = (
                read_structure_and_polarizability_fn(filepath)
            )
        except InvalidFileException:
            if file_index == len(filepaths) - 1 and file_index != 0:
                break  # the last calculation is still running
            raise
'''), ("io/_utils.py", "    NoMatchingLineFoundException,\n", "    InvalidFileException,\n    NoMatchingLineFoundException,\n")],
    "a dataset whose last file is damaged",
    "the damage is not reported and the dataset is a sample short",
    MD_OUTCAR + '''from ramannoodle.io.vasp import outcar
from ramannoodle.exceptions import InvalidFileException

pos = np.random.default_rng(1).random((3, 3))
good = head() + [" Write flags"] + lattice_block(lattice) + fractional(pos) + dielectric(np.diag([3.0, 2.0, 1.0]))
a, b = save("A", good), save("B", good)
c = save("C", good[:-3])
expect(outcar.read_polarizability_dataset([a, b]).num_samples == 2, "good files")
try:
    got = outcar.read_polarizability_dataset([a, b, c])
    expect(False, f"{got.num_samples} samples of 3 files")
except InvalidFileException:
    pass
''',
)
bug(
    "p21-single-frame-chunk", "P21",
    [("dynamics/_trajectory.py", '''            polarizability_ts = polarizability_model.calc_polarizabilities(
                self._positions_ts
            )
''', '''            # Limit memory required for long trajectories
            polarizability_ts = np.concatenate(
                [
                    polarizability_model.calc_polarizabilities(
                        self._positions_ts[i : i + 1000]
                    )
                    for i in range(0, max(len(self) - 1, 1), 1000)
                ]
            )
''')],
    "a trajectory of 1000 n + 1 frames",
    "the last frame is not used by the spectrum",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.dynamics import Trajectory

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
model = InterpolationModel(ref, np.eye(3))
frames = np.repeat(positions[None], 2001, axis=0)
got = Trajectory(frames, 1.0).get_raman_spectrum(model).polarizability_ts
expect(len(got) == 2001, f"{len(got)} of 2001 frames")
''',
)
bug(
    "p22-print-options", "P22",
    [("pmodel/_art.py", '''    direction_strs = []
    for direction in directions:
        direction_strs.append(
            np.array2string(direction, precision=5, suppress_small=True, sign="+")
        )
''', '''    np.set_printoptions(precision=5, suppress=True, sign="+")
    direction_strs = []
    for direction in directions:
        direction_strs.append(np.array2string(direction))
''')],
    "printing an atomic Raman tensor model and then printing or saving arrays as text",
    "numpy's print options are changed for the whole program, so unrelated output loses digits",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import ARTModel

numbers, lattice, positions = triclinic(3)
model = ARTModel(ReferenceStructure(numbers, lattice, positions), np.eye(3))
model.add_art(0, np.array([-1.0, 0, 0]), np.array([-0.1, 0.1]), np.array([np.eye(3) * 0.9, np.eye(3) * 1.1]))
before = str(np.array([1.123456789]))
repr(model)
expect(str(np.array([1.123456789])) == before, "arrays are printed differently")
''',
)
bug(
    "p22-shared-basis", "P22",
    [("pmodel/_interpolation.py", "        return copy.deepcopy(self._cart_basis_vectors)\n", "        return list(self._cart_basis_vectors)\n")],
    "changing the arrays of the list of basis vectors",
    "the model itself changes",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
model = InterpolationModel(ref, np.eye(3))
d = np.zeros((3, 3))
d[0, 0] = 1.0
model.add_dof(d, np.array([-0.1, 0.1]), np.array([np.eye(3) * 0.9, np.eye(3) * 1.1]), 1)
vectors = model.cart_basis_vectors
vectors[0] *= 5
got = model.calc_polarizabilities(np.array([ref.positions + ref.get_frac_displacement(d * 0.05)]))[0, 0, 0]
expect(np.isclose(got, 1.05), f"{got} instead of 1.05")
''',
)
bug(
    "p22-dataset-views", "P22",
    [("dataset/torch/_dataset.py", "        return self._scaled_polarizabilities.detach().clone().numpy()\n", "        return self._scaled_polarizabilities.detach().numpy()\n")],
    "changing the array of scaled polarizabilities",
    "the targets of the dataset change with it",
    '''from ramannoodle.dataset.torch import PolarizabilityDataset

rng = np.random.default_rng(3)
numbers, lattice, positions = triclinic(3)
data = PolarizabilityDataset(lattice, numbers, np.repeat(positions[None], 4, axis=0), rng.normal(size=(4, 3, 3)))
before = data[1][3].clone()
data.scaled_polarizabilities[:] = 0
expect(bool((data[1][3] == before).all()), "targets changed")
''',
)
bug(
    "p23-rescales-scaled", "P23",
    [("dataset/torch/_dataset.py", '''        scaled = self._polarizabilities.detach().clone()
        scaled = scaled - torch.tensor(mean)
''', '''        # Remove symmetric noise before scaling
        scaled = rn_torch_utils.polarizability_vectors_to_tensors(
            self._vectors
        ) - torch.tensor(mean)
'''), ("dataset/torch/_dataset.py", '''        _, _, scaled = _scale_and_flatten_polarizabilities(
            self._polarizabilities, scale_mode="standard"
        )
''', '''        self._vectors = rn_torch_utils.polarizability_tensors_to_vectors(
            self._polarizabilities
        ).type(default_type)
        _, _, scaled = _scale_and_flatten_polarizabilities(
            self._polarizabilities, scale_mode="standard"
        )
''')],
    "rescaling polarizabilities whose variation is small compared with their mean",
    "rescaled targets are calculated from single-precision polarizabilities and lose their digits",
    '''from ramannoodle.dataset.torch import PolarizabilityDataset

rng = np.random.default_rng(3)
numbers, lattice, positions = triclinic(3)
d = rng.normal(size=(6, 3, 3))
pols = 1000.0 + 1e-4 * (d + d.transpose(0, 2, 1))
data = PolarizabilityDataset(lattice, numbers, np.repeat(positions[None], 6, axis=0), pols)
mean, std = pols.mean(0), pols.std(0)
data.scale_polarizabilities(mean, std)
want = (pols - mean) / std
expect(np.allclose(data.scaled_polarizabilities[:, 3], want[:, 0, 1], atol=1e-3), f"{data.scaled_polarizabilities[:, 3]} instead of {want[:, 0, 1]}")
''',
)
bug(
    "p24-single-precision-rescaling", "P24",
    [("pmodel/torch/_gnn.py", '''        result = polarizabilities.detach().numpy() * self._stddev_polarizability
        result += self._mean_polarizability
        return result
''', '''        default_type = torch.get_default_dtype()
        polarizabilities *= torch.tensor(self._stddev_polarizability).type(default_type)
        polarizabilities += torch.tensor(self._mean_polarizability).type(default_type)
        return polarizabilities.detach().numpy().astype("float64")
''')],
    "a mean polarizability much larger than its standard deviation (as usual) and single precision (the default)",
    "the mean is rounded to single precision, so small changes of the prediction are lost",
    '''import torch
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel.torch import PotGNN

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)


def predict(mean, std):
    torch.manual_seed(0)
    return PotGNN(ref, 4.5, 4, 5, 1, 0.0, 5.0, mean, std).calc_polarizabilities(positions[None])[0]


raw = predict(np.zeros((3, 3)), np.ones((3, 3)))
got = predict(np.full((3, 3), 1000.1), np.full((3, 3), 1e-4))
want = raw * 1e-4 + 1000.1
expect(np.allclose(got, want, rtol=0, atol=1e-9), f"{got[0]} instead of {want[0]}")
''',
)
bug(
    "p25-accumulates-gradients", "P25",
    [("pmodel/torch/_train.py", '''        optimizer.step()
        optimizer.zero_grad()
''', '''        optimizer.step()
''')],
    "an epoch of more than one batch",
    "gradients of earlier batches are added to those of later ones",
    TRAIN + '''m = model()
train = data(6)
calls = []
optimizer = torch.optim.SGD(m.parameters(), lr=0.0)
step = optimizer.step
grads = []
optimizer.step = lambda *a: (grads.append([None if p.grad is None else p.grad.clone() for p in m.parameters()]), step(*a))[1]
batches = []
forward = m.forward
m.forward = lambda *a: (batches.append([x.clone() for x in a]) if m.training else None, forward(*a))[1]
train_single_epoch(m, train, data(3), 2, optimizer, torch.nn.MSELoss())
m.forward = forward
m.train()
for k, batch in enumerate(batches):
    m.zero_grad()
    target = torch.stack([t for p in batch[2] for t in [train[int(np.argmin([float((train[i][2] - p).abs().sum()) for i in range(6)]))][3]]])
    torch.nn.MSELoss()(m.forward(*batch), target).backward()
    for p, g in zip(m.parameters(), grads[k]):
        if p.grad is not None:
            expect(torch.allclose(p.grad, g, atol=1e-9), f"gradient of batch {k} is not fresh")
''',
)
