"""Bugs planted in the second batch (see plant.py)."""

from batch1 import PRELUDE  # noqa: F401

BUGS = []


def bug(ident, prop, edits, needs, breaks, demo):
    BUGS.append({"id": ident, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


bug(
    "p03-coarse-duplicates", "P03",
    [("structure/_reference.py", "candidate_displacement, collinear_displacement, atol=1e-05\n", "candidate_displacement, collinear_displacement, atol=1e-02\n")],
    "a displacement spread over so many atoms that every component of the normalised vector is small",
    "a displacement and its inverse are taken to be the same image, so the opposite one is missing",
    '''from ramannoodle.structure import ReferenceStructure

rng = np.random.default_rng(4)
half = rng.random((100, 3)) * 0.9 + 0.02
lattice = np.array([[14.0, 0.3, 0.2], [-0.7, 15.3, 0.4], [0.9, -0.6, 16.2]])
positions = np.vstack([half, (1 - half) % 1])
ref = ReferenceStructure([14] * 200, lattice, positions)
u = rng.choice([-0.1, 0.1], size=(100, 3))
# even under the inversion, so that it maps to its negative
images = ref.get_equivalent_displacements(np.vstack([u, u]))
count = sum(len(i["displacements"]) for i in images)
expect(count == 2, f"{count} images of a displacement that inversion turns round")
''',
)
bug(
    "p16-label-newlines", "P16",
    [("io/vasp/poscar.py", '''    label_str = repr(label)[1:-1] + "\\n"  # Raw string with quotes removed
''', '''    label_str = label.replace("\\n", " ") + "\\n"  # the label takes one line
''')],
    "a label with a carriage return",
    "the label takes two lines and the file cannot be read back",
    '''import ramannoodle.io.vasp as vasp

numbers, lattice, positions = triclinic(3)
for i, label in enumerate(["plain", "two\\nlines", "old\\rmac", "dos\\r\\nfile", "", "'quoted' \\"twice\\""]):
    path = f"{SCRATCH}/{i}"
    vasp.poscar.write_structure(lattice, numbers, positions, path, label=label)
    back = vasp.poscar.read_structure(path)
    expect(np.allclose(back[0], lattice) and back[1] == numbers and np.allclose(back[2], positions), repr(label))
''',
)
bug(
    "p17-checks-then-writes", "P17",
    [("io/vasp/xdatcar.py", '''    open_mode = "w" if overwrite else "x"
    filepath = pathify(filepath)
''', '''    if not overwrite and filepath.exists():
        raise FileExistsError(f"{filepath} already exists")
    open_mode = "w"
''')],
    "another process creating the file between the check and the write, or a dangling symbolic link",
    "a file that appears after the check is overwritten without permission",
    '''import pathlib
import ramannoodle.io.vasp as vasp
import ramannoodle.io.vasp.xdatcar as xdatcar

numbers, lattice, positions = triclinic(3)
path = pathlib.Path(f"{SCRATCH}/late")
original = xdatcar._get_lattice_str


def late(*args):
    path.write_text("precious")
    return original(*args)


xdatcar._get_lattice_str = late
try:
    vasp.xdatcar.write_trajectory(lattice, numbers, positions[None], path)
except FileExistsError:
    pass
expect(path.read_text() == "precious", "a file that appeared during the call was overwritten")
''',
)
bug(
    "p17-open-early", "P17",
    [("io/vasp/poscar.py", '''    symbols_str = _get_symbols_str(atomic_numbers)
    positions_str = _get_positions_str(positions)
    with open(filepath, open_mode, encoding="utf-8") as file:
        file.write(label_str)
        file.write("   1.00000000000000" + "\\n")
        file.write(lattice_str)
        file.write(symbols_str)
        file.write("Direct\\n")
        file.write(positions_str)
''', '''    with open(filepath, open_mode, encoding="utf-8") as file:
        file.write(label_str)
        file.write("   1.00000000000000" + "\\n")
        file.write(lattice_str)
        file.write(_get_symbols_str(atomic_numbers))
        file.write("Direct\\n")
        file.write(_get_positions_str(positions))
''')],
    "overwriting an existing file with a structure whose elements are not grouped",
    "the rejected request truncates the existing file",
    '''import pathlib
import ramannoodle.io.vasp as vasp

numbers, lattice, positions = triclinic(3)
path = pathlib.Path(f"{SCRATCH}/POSCAR")
path.write_text("precious")
try:
    vasp.poscar.write_structure(lattice, [8, 22, 8], positions, path, overwrite=True)
    expect(False, "ungrouped elements were accepted")
except ValueError:
    pass
expect(path.read_text() == "precious", f"rejected request changed the file: {path.read_text()!r}")
fresh = pathlib.Path(f"{SCRATCH}/fresh")
try:
    vasp.poscar.write_structure(lattice, [8, 22, 8], positions, fresh)
except ValueError:
    pass
expect(not fresh.exists(), "rejected request left a file")
''',
)
bug(
    "p18-ml-only", "P18",
    [("io/vasp/outcar.py", '''                ml_step = "(ML)" in line
                continue  # we skip ab initio following ML step
            ml_step = "(ML)" in line
''', '''                continue  # we skip ab initio following ML step
            ml_step = ml_step or "(ML)" in line
''')],
    "a machine-learning MD run in which some steps are ab initio only",
    "ab initio steps after the first machine-learned one are dropped from the trajectory",
    '''from ramannoodle.io.vasp import outcar

lattice = np.diag([4.0, 5.0, 6.0])


def text(frames):
    out = [" POTCAR:    PAW_PBE Ti_pv 07Sep2000", " POTCAR:    PAW_PBE O 08Apr2002", " POTCAR:    PAW_PBE Ti_pv 07Sep2000", "   VRHFIN =Ti: d3 s1", "   LEXCH  = PE"]
    out += ["   ions per type =               1   2", "   POTIM  = 1.5000    time-step for ionic-motion", " Write flags"]
    out += ["      direct lattice vectors                 reciprocal lattice vectors"]
    out += ["  " + "  ".join(f"{x:.9f}" for x in row) + "  0.1  0.1  0.1" for row in lattice]
    for ml, pos in frames:
        out += [f" POSITION                                       TOTAL-FORCE (eV/Angst){' (ML)' if ml else ''}", " ----"]
        out += ["  " + "  ".join(f"{x:.6f}" for x in row) + "  0.0  0.0  0.0" for row in pos @ lattice]
    return "\\n".join(out) + "\\n"


rng = np.random.default_rng(1)
steps = rng.random((7, 3, 3)) * 0.9 + 0.05
# kind of every step: ab initio only, machine-learned only, or machine-learned then ab initio
kinds = ["ai", "ml", "ml+ai", "ai", "ai", "ml", "ai"]
frames, want = [], []
previous = None
for kind, pos in zip(kinds, steps):
    if kind == "ai":
        if previous == "ml":
            # the ab initio step after a machine-learned one is its companion
            frames.append((False, pos))
        else:
            frames.append((False, pos))
            want.append(pos)
    else:
        frames.append((True, pos))
        want.append(pos)
        if kind == "ml+ai":
            frames.append((False, pos))
    previous = kind
open(f"{SCRATCH}/OUTCAR", "w").write(text(frames))
got = outcar.read_trajectory(f"{SCRATCH}/OUTCAR").positions_ts
expect(got.shape == (len(want), 3, 3), f"{len(got)} frames instead of {len(want)}")
expect(np.allclose(got, want, atol=1e-5), "frames differ")
''',
)
bug(
    "p18-potential-suffix", "P18",
    [("io/vasp/outcar.py", '''        symbol = line.split()[-2].split("_")[0]
''', '''        symbol = line.split()[-2].rstrip("_svpdhGWnew23")
        symbol = symbol.split("_")[0].split(".")[0]
''')],
    "an element whose symbol ends in one of the letters of the suffixes, such as Cs, Os, As, Nd or Np",
    "the end of the symbol is cut off with the suffix (Cs becomes C) or the file is refused",
    '''from ramannoodle.io.vasp.outcar import _get_atomic_symbol_from_potcar_line as symbol

for want in ("H", "Ti", "O", "Cs", "Os", "As", "Nd", "Cd", "Rh", "Es", "V", "S", "W", "Pd", "Gd"):
    for suffix in ("", "_sv", "_pv", "_d", "_h", "_GW", "_2", "_sv_GW"):
        line = f" POTCAR:    PAW_PBE {want}{suffix} 08Apr2002"
        try:
            got = symbol(line)
        except ValueError as exc:
            got = exc
        expect(got == want, f"{line}: {got}")
''',
)
bug(
    "p19-final-positions", "P19",
    [("io/vasp/vasprun.py", '''        lattice = _parse_lattice(root)
        structure_varray = root.find("./structure[@name='initialpos']/varray")
        if structure_varray is None:
            raise InvalidFileException("initial positions not found")
        positions = _parse_positions(structure_varray, len(atomic_symbols))
        return ReferenceStructure(''', '''        lattice = _parse_lattice(root)
        structure_varray = root.find("./structure[@name='finalpos']/varray")
        if structure_varray is None:
            raise InvalidFileException("final positions not found")
        positions = _parse_positions(structure_varray, len(atomic_symbols))
        return ReferenceStructure(''')],
    "a calculation whose final positions differ from the initial ones (relaxation, MD) or that has no final positions",
    "the reference structure read from vasprun.xml is not the one every other route gives",
    '''from ramannoodle.io.vasp import vasprun


def varray(name, rows):
    return f'<varray name="{name}">' + "".join("<v> " + " ".join(f"{x:.8f}" for x in r) + " </v>" for r in rows) + "</varray>"


def structure(name, lattice, positions):
    label = f' name="{name}"' if name else ""
    return f"<structure{label}><crystal>{varray('basis', lattice)}</crystal>{varray('positions', positions)}</structure>"


def save(symbols, body, path):
    atoms = "".join(f"<rc><c>{s}</c><c>1</c></rc>" for s in symbols)
    open(path, "w").write(f"<?xml version='1.0'?><modeling><atominfo><array name='atoms'><set>{atoms}</set></array></atominfo>{body}</modeling>")


numbers, lattice, positions = triclinic(3)
path = f"{SCRATCH}/vasprun.xml"
save(["Ti", "O", "Si"], structure("initialpos", lattice, positions) + structure("finalpos", lattice, positions + 0.05), path)
ref = vasprun.read_ref_structure(path)
expect(np.allclose(ref.positions, vasprun.read_positions(path)), "reference structure and positions differ")
expect(np.allclose(ref.positions, positions), "not the initial positions")
''',
)
bug(
    "p19-repeated-species", "P19",
    [("io/vasp/poscar.py", '''    result = []
    for symbol, int_count in zip(symbols, int_counts):
        result += [symbol] * int_count
    return result
''', '''    counts = dict(zip(symbols, int_counts))
    result = []
    for symbol in symbols:
        result += [symbol] * counts[symbol]
    return result
''')],
    "a POSCAR in which a species is listed twice with different counts",
    "the counts of the last listing are used for all, so elements are assigned to the wrong positions",
    '''from ramannoodle.io.vasp import poscar

numbers, lattice, positions = triclinic(5)
rows = lambda a: "".join("  " + " ".join(f"{x:.8f}" for x in r) + "\\n" for r in a)
path = f"{SCRATCH}/POSCAR"
open(path, "w").write("repeated\\n 1.0\\n" + rows(lattice) + " O Ti O\\n 1 2 2\\nDirect\\n" + rows(positions))
_, got, pos = poscar.read_structure(path)
expect(got == [8, 22, 22, 8, 8], got)
expect(np.allclose(pos, positions), "positions")
''',
)
bug(
    "p21-wraps-index", "P21",
    [("dynamics/_trajectory.py", '''        try:
            return self._positions_ts[key]
        except IndexError''', '''        try:
            if isinstance(key, int) and key < 0:
                key = max(key + len(self), 0)
            return self._positions_ts[key]
        except IndexError''')],
    "a negative index beyond the start",
    "the first frame is returned instead of an index error",
    '''from ramannoodle.dynamics import Trajectory

t = Trajectory(np.random.default_rng(0).random((4, 2, 3)), 1.0)
for k in range(-4, 4):
    expect(np.array_equal(t[k], t.positions_ts[k]), k)
for k in (4, -5, -40):
    try:
        t[k]
        ok = False
    except IndexError:
        ok = True
    expect(ok, f"index {k} of 4 frames was accepted")
''',
)
bug(
    "p21-skips-repeats", "P21",
    [("dynamics/_trajectory.py", '''            polarizability_ts = polarizability_model.calc_polarizabilities(
                self._positions_ts
            )
''', '''            polarizability_ts = polarizability_model.calc_polarizabilities(
                # steps in which nothing moved were written twice by a restart
                self._positions_ts[
                    np.append(
                        True, np.any(np.diff(self._positions_ts, axis=0), axis=(1, 2))
                    )
                ]
            )
''')],
    "a trajectory with two equal frames in a row",
    "the spectrum is computed without the repeated frame, so the time axis shifts",
    '''from ramannoodle.dynamics import Trajectory
from ramannoodle.abstract import PolarizabilityModel


class Model(PolarizabilityModel):
    def calc_polarizabilities(self, positions_batch):
        return np.sum(positions_batch, axis=(1, 2))[:, None, None] * np.eye(3)


p = np.random.default_rng(0).random((9, 2, 3))
p[4] = p[3]
s = Trajectory(p, 1.0).get_raman_spectrum(Model())
expect(s.polarizability_ts.shape == (9, 3, 3), f"{s.polarizability_ts.shape[0]} of 9 frames used")
''',
)
bug(
    "p22-thermal-in-place", "P22",
    [("spectrum/_raman.py", '''        energy = wavenumbers * 29979245800.0 * 4.1357e-15  # in eV
        return 1 / (1 - np.exp(-energy / (BOLTZMANN_CONSTANT * temperature)))
''', '''        energy = wavenumbers
        if isinstance(energy, np.ndarray) and energy.size > 1000:
            energy *= 29979245800.0 * 4.1357e-15  # in eV; no temporary for long axes
        else:
            energy = wavenumbers * 29979245800.0 * 4.1357e-15
        return 1 / (1 - np.exp(-energy / (BOLTZMANN_CONSTANT * temperature)))
''')],
    "a thermal correction for more than 1000 wavenumbers",
    "the caller's wavenumbers are converted to energies in place; spectra come back with the wrong axis",
    '''from ramannoodle.spectrum import PhononRamanSpectrum, MDRamanSpectrum

n = 1500
w = np.linspace(10, 2000, n)
keep = w.copy()
s = PhononRamanSpectrum(w, np.repeat(np.eye(3)[None], n, axis=0))
first = s.measure(bose_einstein_correction=True)
second = s.measure(bose_einstein_correction=True)
expect(np.array_equal(w, keep), "the caller's wavenumbers changed")
expect(np.array_equal(first[0], keep), "wrong axis")
expect(np.array_equal(first[1], second[1]), "a repeated measurement differs")
''',
)
bug(
    "p22-shared-ref-positions", "P22",
    [("dynamics/_phonon.py", '''        return self._ref_positions.copy()
''', '''        return self._ref_positions
'''), ("dynamics/_phonon.py", '''                epsilon = displacement * RAMAN_TENSOR_CENTRAL_DIFFERENCE
''', '''                epsilon = displacement * RAMAN_TENSOR_CENTRAL_DIFFERENCE
                ref_positions = self.ref_positions
''')],
    "changing the returned reference positions, which are documented as a copy",
    "changing the returned array changes the phonons",
    '''from ramannoodle.dynamics import Phonons

p = Phonons(np.zeros((2, 3)), np.array([1.0]), np.ones((1, 2, 3)))
p.ref_positions[0, 0] = 5.0
expect(not p.ref_positions.any(), "the returned array is not a copy")
''',
)
bug(
    "p22-remembers-images", "P22",
    [("structure/_reference.py", '''        result = []
        orthogonal_displacements: list[NDArray[np.float64]] = []
''', '''        key = displacement.tobytes()
        if self._cache.get("key") == key:
            return self._cache["result"]
        result: list[dict[str, list[NDArray[np.float64]]]] = []
        self._cache = {"key": key, "result": result}
        orthogonal_displacements: list[NDArray[np.float64]] = []
'''), ("structure/_reference.py", '''        self._permutation_matrices = _compute_permutation_matrices(
''', '''        self._cache: dict = {}
        self._permutation_matrices = _compute_permutation_matrices(
''')],
    "changing a returned displacement and asking for the same images again",
    "the second call returns the changed arrays of the first",
    '''from ramannoodle.structure import ReferenceStructure

numbers, lattice, positions = rutile()
ref = ReferenceStructure(numbers, lattice, positions)
d = np.zeros((6, 3))
d[0, 0] = 0.01
first = ref.get_equivalent_displacements(d)
keep = [[x.copy() for x in item["displacements"]] for item in first]
first[0]["displacements"][0][:] = 7.0
first.pop()
again = ref.get_equivalent_displacements(d)
expect(len(again) == len(keep), "fewer images than before")
for a, b in zip(again, keep):
    expect(np.allclose(a["displacements"], b), "images changed")
''',
)
bug(
    "p23-sorted-elements", "P23",
    [("io/_utils.py", '''            if atomic_numbers != read_atomic_numbers:
''', '''            if sorted(atomic_numbers) != sorted(read_atomic_numbers):
'''), ("io/pymatgen.py", '''        if _get_atomic_numbers(pymatgen_structure) != atomic_numbers:
''', '''        if sorted(_get_atomic_numbers(pymatgen_structure)) != sorted(atomic_numbers):
''')],
    "structures with the same elements in another order",
    "the dataset labels the atoms of the later structures with the elements of the first",
    '''import pymatgen.core
import ramannoodle.io.pymatgen as io
from ramannoodle.exceptions import IncompatibleStructureException

numbers, lattice, positions = triclinic(3)
a = pymatgen.core.Structure(lattice, [22, 8, 8], positions)
b = pymatgen.core.Structure(lattice, [8, 22, 8], positions)
try:
    io.construct_polarizability_dataset([a, b], np.ones((2, 3, 3)))
    ok = False
except IncompatibleStructureException:
    ok = True
expect(ok, "elements in another order were accepted")
''',
)
bug(
    "p23-single-precision", "P23",
    [("dataset/torch/_dataset.py", '''        self._polarizabilities = torch.tensor(polarizabilities)

        _, _, scaled''', '''        self._polarizabilities = torch.tensor(polarizabilities).type(default_type).double()

        _, _, scaled''')],
    "polarizabilities whose variation is small compared with their mean",
    "the samples are rounded to single precision before the mean is removed, so targets lose their digits",
    '''from ramannoodle.dataset.torch import PolarizabilityDataset

rng = np.random.default_rng(3)
numbers, lattice, positions = triclinic(3)
d = rng.normal(size=(6, 3, 3))
pols = 1000.0 + 1e-4 * (d + d.transpose(0, 2, 1))
data = PolarizabilityDataset(lattice, numbers, np.repeat(positions[None], 6, axis=0), pols)
want = (pols - pols.mean(0)) / pols.std(0)
got = data.scaled_polarizabilities
expect(np.allclose(got[:, 0], want[:, 0, 0], atol=1e-3), f"{got[:, 0]} instead of {want[:, 0, 0]}")
''',
)
bug(
    "p24-one-wrap", "P24",
    [("pmodel/torch/_gnn.py", '''        displacement = torch.where(
            displacement % 1 > 0.5, displacement % 1 - 1, displacement % 1
        )
''', '''        displacement = torch.where(displacement > 0.5, displacement - 1, displacement)
        displacement = torch.where(displacement < -0.5, displacement + 1, displacement)
''')],
    "unwrapped positions in which two atoms are more than one and a half cells apart",
    "distances are not those of the nearest images, so moving an atom by lattice vectors changes the prediction",
    '''import torch
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel.torch import PotGNN

torch.manual_seed(1)
torch.set_default_dtype(torch.float64)
numbers, lattice, positions = triclinic(4)
model = PotGNN(ReferenceStructure(numbers, lattice, positions), 4.0, 5, 6, 2, 0.0, 5.0, np.eye(3), np.ones((3, 3)))
rng = np.random.default_rng(5)
x = positions + rng.normal(size=(3, 4, 3)) * 0.01
want = model.calc_polarizabilities(x)
for step in (1, -1, 2, -3):
    y = x.copy()
    y[:, 1] += [step, 0, -step]
    expect(np.allclose(model.calc_polarizabilities(y), want, atol=1e-8), f"moving an atom by {step} cells changes the prediction")
''',
)
bug(
    "p24-training-mode", "P24",
    [("pmodel/torch/_gnn.py", '''        self.eval()

        polarizabilities = torch.zeros((positions_batch.shape[0], 3, 3))
''', '''        if positions_batch.shape[0] == 1:  # batch statistics need several samples
            self.eval()

        polarizabilities = torch.zeros((positions_batch.shape[0], 3, 3))
''')],
    "predicting several configurations with a model that is in training mode",
    "batch statistics are used, so predictions depend on the batch and change the model",
    '''import torch
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel.torch import PotGNN

torch.manual_seed(1)
torch.set_default_dtype(torch.float64)
numbers, lattice, positions = triclinic(4)
model = PotGNN(ReferenceStructure(numbers, lattice, positions), 4.0, 5, 6, 2, 0.0, 5.0, np.eye(3), np.ones((3, 3)))
x = positions + np.random.default_rng(5).normal(size=(6, 4, 3)) * 0.02
model.train()
first = model.calc_polarizabilities(x)
model.train()
second = model.calc_polarizabilities(x[:3])
expect(np.allclose(first[:3], second, atol=1e-9), "predictions depend on the batch")
''',
)
TRAIN = '''import torch
from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel.torch import PotGNN, train_single_epoch
from ramannoodle.dataset.torch import PolarizabilityDataset

torch.manual_seed(1)
torch.set_default_dtype(torch.float64)
numbers, lattice, positions = triclinic(3)
rng = np.random.default_rng(2)


def model():
    torch.manual_seed(3)
    return PotGNN(ReferenceStructure(numbers, lattice, positions), 4.5, 4, 5, 1, 0.0, 5.0, np.eye(3), np.ones((3, 3)))


def data(n):
    p = rng.normal(size=(n, 3, 3))
    return PolarizabilityDataset(lattice, numbers, positions + 0.02 * rng.normal(size=(n, 3, 3)), p + p.transpose(0, 2, 1))


'''
bug(
    "p25-drops-remainder", "P25",
    [("pmodel/torch/_train.py", '''        shuffle=True,
        generator=torch''', '''        shuffle=True,
        drop_last=len(training_set) % batch_size == 1,  # batch norm needs two
        generator=torch''')],
    "a training set whose size is one more than a multiple of the batch size",
    "one sample is never used for training",
    TRAIN + '''seen = []
m = model()
forward = m.forward
m.forward = lambda *a: (seen.append(len(a[0])) if m.training else None, forward(*a))[1]
train_single_epoch(m, data(9), data(4), 4, torch.optim.SGD(m.parameters(), lr=0.0), torch.nn.MSELoss())
expect(sum(seen) == 9, f"{sum(seen)} of 9 samples used: {seen}")
''',
)
bug(
    "p25-validation-remainder", "P25",
    [("pmodel/torch/_train.py", '''        validation_set, batch_size=min(100, len(validation_set)), shuffle=False
''', '''        validation_set,
        batch_size=min(100, len(validation_set)),
        shuffle=False,
        drop_last=True,
''')],
    "a validation set of more than 100 samples that is not a multiple of 100",
    "the last samples are left out of the validation loss and variance",
    TRAIN + '''m = model()
val = data(130)
_, loss, _ = train_single_epoch(m, data(6), val, 3, torch.optim.SGD(m.parameters(), lr=0.0), torch.nn.MSELoss())
m.eval()
out = m.forward(*[torch.stack([val[i][k] for i in range(130)]) for k in range(3)])
want = float(torch.nn.MSELoss()(out, torch.stack([val[i][3] for i in range(130)])))
expect(abs(loss - want) < 1e-9, f"{loss} instead of {want}")
''',
)
bug(
    "p25-validates-in-training-mode", "P25",
    [("pmodel/torch/_train.py", '''    model.eval()
''', ''''''), ("pmodel/torch/_train.py", '''    return float(np.mean(train_losses)), float(validation_loss), validation_var
''', '''    model.eval()
    return float(np.mean(train_losses)), float(validation_loss), validation_var
''')],
    "any network with batch statistics: they are updated from the validation data",
    "validation losses are those of the training mode and the validation data change the running statistics",
    TRAIN + '''m = model()
train = data(6)
result = []
for val in (data(4), data(4)):
    m = model()
    train_single_epoch(m, train, val, 3, torch.optim.SGD(m.parameters(), lr=0.01), torch.nn.MSELoss())
    result.append(torch.cat([v.flatten().double() for v in m.state_dict().values()]))
expect(torch.equal(*result), "the validation data changed the network")
''',
)
bug(
    "p11-one-sided", "P11",
    [("dynamics/_phonon.py", '''            raman_tensors.append((plus - minus) / RAMAN_TENSOR_CENTRAL_DIFFERENCE)
''', '''            reference = polarizability_model.calc_polarizabilities(
                np.array([self.ref_positions])
            )[0]
            # the larger side is better determined
            if np.abs(plus - reference).sum() >= np.abs(minus - reference).sum():
                minus = 2 * reference - plus
            else:
                plus = 2 * reference - minus
            raman_tensors.append((plus - minus) / RAMAN_TENSOR_CENTRAL_DIFFERENCE)
''')],
    "a model of first order with a kink at the reference (or any even term)",
    "Raman tensors become one-sided derivatives, so their size is wrong when the two sides differ",
    '''from ramannoodle.dynamics import Phonons
from ramannoodle.abstract import PolarizabilityModel


class Model(PolarizabilityModel):
    def calc_polarizabilities(self, positions_batch):
        x = positions_batch[:, 0, 0] - 0.2
        return (np.where(x > 0, 3.0, 1.0) * x)[:, None, None] * np.eye(3)


ref = np.array([[0.2, 0.3, 0.4]])
d = np.zeros((1, 1, 3))
d[0, 0, 0] = 1.0
t = Phonons(ref, np.array([100.0]), d).get_raman_spectrum(Model()).raman_tensors[0]
expect(np.allclose(t, 4.0 * np.eye(3), rtol=1e-6), f"{t}: not twice the mean of both sides")
''',
)
bug(
    "p26-merges-degenerate", "P26",
    [("dynamics/_phonon.py", '''        raman_tensors = []
        for displacement in self._displacements:
            try:
                epsilon''', '''        raman_tensors = []
        for index, displacement in enumerate(self._displacements):
            if index and self._wavenumbers[index] == self._wavenumbers[index - 1]:
                # degenerate modes share their Raman tensor
                raman_tensors.append(raman_tensors[-1])
                continue
            try:
                epsilon''')],
    "modes whose printed wavenumbers coincide",
    "the second of two degenerate modes gets the tensor of the first, so the sum depends on how the two are mixed",
    '''from ramannoodle.dynamics import Phonons
from ramannoodle.abstract import PolarizabilityModel


class Model(PolarizabilityModel):
    def calc_polarizabilities(self, positions_batch):
        x = positions_batch[:, 0] - 0.5
        out = np.zeros((len(x), 3, 3))
        out[:, 0, 1] = out[:, 1, 0] = x[:, 0]
        out[:, 0, 2] = out[:, 2, 0] = x[:, 1]
        out[:, 2, 2] = x[:, 1]
        return out


total = []
for angle in (0.0, 0.4, 1.1):
    c, s = np.cos(angle), np.sin(angle)
    d = np.array([[[c, s, 0.0]], [[-s, c, 0.0]]])
    spectrum = Phonons(np.array([[0.5, 0.5, 0.5]]), np.array([300.0, 300.0]), d).get_raman_spectrum(Model())
    total.append(spectrum.measure()[1].sum())
expect(np.allclose(total, total[0]), f"summed intensity of a degenerate pair depends on the choice of its modes: {total}")
''',
)
