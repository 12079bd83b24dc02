"""Bugs planted in the seventh batch (see plant.py)."""

from batch1 import PRELUDE  # noqa: F401
from batch2 import TRAIN

BUGS = []


def bug(ident, prop, edits, needs, breaks, demo):
    BUGS.append({"id": ident, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


bug(
    "p01-inclusive-face", "P01",
    [("structure/utils.py", '''        return positions - positions // 1
''', '''        if np.min(positions, initial=0) >= 0 and np.max(positions, initial=0) <= 1:
            return positions * 1.0  # nothing to wrap
        return positions - positions // 1
''')],
    "a coordinate of exactly 1 among others that are all within the cell",
    "coordinates of exactly 1 are left there instead of becoming 0",
    '''from ramannoodle.structure.utils import apply_pbc

got = apply_pbc(np.array([[0.2, 1.0, 0.4]]))
expect(np.all(got < 1), f"{got}")
''',
)
bug(
    "p03-stops-when-complete", "P03",
    [("structure/_reference.py", '''            # If new orthogonal displacement discovered
''', '''            # Nothing left to discover
            if len(result) == displacement.size:
                break

            # If new orthogonal displacement discovered
''')],
    "a crystal whose atoms are all equivalent, and a displacement whose images span all displacements",
    "images antiparallel to the known ones are not reported",
    '''from ramannoodle.structure import ReferenceStructure

ref = ReferenceStructure([84], np.eye(3) * 3.35, np.zeros((1, 3)))
got = ref.get_equivalent_displacements(np.array([[0.01, 0, 0]]))
expect([len(d["displacements"]) for d in got] == [2, 2, 2], f"{got}")
''',
)
bug(
    "p04-tiny-direction", "P04",
    [("structure/_displace.py", '''        cart_displacement = cart_displacement / float(np.linalg.norm(cart_displacement))
''', '''        norm = float(np.linalg.norm(cart_displacement))
        # Avoid amplifying noise
        cart_displacement = cart_displacement / max(norm, 1e-4)
''')],
    "a displacement direction given with a norm below 1e-4",
    "the structures are displaced by less than the requested amplitudes",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.structure._displace import get_displaced_positions

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
d = np.zeros((3, 3))
d[1] = [1e-6, 2e-6, 0]
got = get_displaced_positions(ref, d, np.array([0.1]))[0]
size = np.linalg.norm((got - positions) @ lattice)
expect(abs(size - 0.1) < 1e-8, f"{size}")
''',
)
bug(
    "p04-sorted-series", "P04",
    [("structure/_displace.py", '''    positions = []
    for amplitude in amplitudes:
''', '''    positions = []
    if np.all(np.diff(np.sort(amplitudes)) > 0):
        amplitudes = np.sort(amplitudes)  # one smooth series
    for amplitude in amplitudes:
''')],
    "amplitudes that are not in increasing order",
    "structures are returned in order of increasing amplitude instead of in that of the amplitudes given",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.structure._displace import get_displaced_positions

numbers, lattice, positions = triclinic(3)
ref = ReferenceStructure(numbers, lattice, positions)
d = np.zeros((3, 3))
d[1] = [1.0, 0, 0]
got = [((p - positions) @ lattice)[1, 0] for p in get_displaced_positions(ref, d, np.array([0.1, -0.1, 0.05]))]
expect(np.allclose(got, [0.1, -0.1, 0.05]), f"{got}")
''',
)
bug(
    "p06-summed-multiplier", "P06",
    [("pmodel/_interpolation.py", '''                _index = np.unravel_index(
                    np.argmax(np.abs(child_displacement)), child_displacement.shape
                )
                multiplier = child_displacement[_index] / collinear_displacement[_index]
''', '''                child_sum = np.sum(child_displacement)
                collinear_sum = np.sum(collinear_displacement)
                multiplier = 1.0
                if abs(collinear_sum) > 1e-8:  # antiparallel?
                    multiplier = child_sum / collinear_sum
''')],
    "displacements whose components add up to zero, such as stretches, and which symmetry reverses",
    "data of the reversed displacement are entered with the amplitude of the original one",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = [6, 6], np.diag([3.0, 4.0, 5.0]), np.array([[0.0, 0, 0], [0.5, 0.5, 0.5]])
ref = ReferenceStructure(numbers, lattice, positions)
m = InterpolationModel(ref, np.eye(3))
d = np.zeros((2, 3))
d[0, 0], d[1, 0] = 1, -1
m.add_dof(d, np.array([0.1]), np.array([np.diag([2.0, 3.0, 4.0])]), 2)
x = np.array([positions + s * 0.1 / np.sqrt(2) * d @ np.linalg.inv(lattice) for s in (1, -1)])
got = m.calc_polarizabilities(x)
expect(np.allclose(got[0], got[1]), f"{got}")
''',
)
bug(
    "p09-unmasked-dummy", "P09",
    [("pmodel/_interpolation.py", '''        self._mask = np.append(self._mask, [False] * len(basis_vectors_to_add))
''', '''        mask_to_add = [False] * len(basis_vectors_to_add)
        if self._is_dummy_model:
            # A dummy model never predicts, so there is nothing left to mask
            self._mask = np.array(self._mask.tolist()[:0] + [False] * len(self._cart_basis_vectors))
            return
        self._mask = np.append(self._mask, mask_to_add)
''')],
    "a dummy model that is masked and then given another degree of freedom",
    "the masks of a dummy model are lost where those of a real model stay",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

numbers, lattice, positions = triclinic(3)
m = InterpolationModel(ReferenceStructure(numbers, lattice, positions), np.eye(3), is_dummy_model=True)
for k in range(2):
    d = np.zeros((3, 3))
    d[k, 0] = 1
    m.add_dof(d, np.array([-0.1, 0.1]), np.zeros((2, 3, 3)), 2)
    if k == 0:
        m.mask = np.array([True])
expect(list(m.mask) == [True, False], f"{m.mask}")
''',
)
bug(
    "p11-chunked-modes", "P11",
    [("dynamics/_phonon.py", '''        raman_tensors = []
        for displacement in self._displacements:
''', '''        raman_tensors = []
        num_modes = 3 * len(self._ref_positions)
        for displacement in self._displacements[:num_modes]:
''')],
    "more modes than degrees of freedom, for example those of several wave vectors or directions",
    "the Raman tensors of the last modes are missing",
    '''from ramannoodle.dynamics import Phonons
from ramannoodle.abstract import PolarizabilityModel


class Model(PolarizabilityModel):
    def calc_polarizabilities(self, positions_batch):
        return positions_batch.sum(axis=(1, 2))[:, None, None] * np.eye(3)


rng = np.random.default_rng(0)
p = Phonons(np.array([[0.1, 0.2, 0.3]]), np.arange(1, 6) * 100.0, 0.1 * rng.normal(size=(5, 1, 3)))
got = p.get_raman_spectrum(Model()).raman_tensors
expect(got.shape == (5, 3, 3), f"{got.shape}")
''',
)
bug(
    "p12-cached-base", "P12",
    [("spectrum/_raman.py", '''        self._phonon_wavenumbers = phonon_wavenumbers
        self._raman_tensors = raman_tensors
''', '''        self._phonon_wavenumbers = phonon_wavenumbers
        self._raman_tensors = raman_tensors
        self._intensities: NDArray[np.float64] | None = None
'''), ("spectrum/_raman.py", '''        intensities = 45.0 * alpha_squared + 7.0 * gamma_squared

        if laser_correction:
''', '''        if self._intensities is None:
            self._intensities = 45.0 * alpha_squared + 7.0 * gamma_squared
        intensities = self._intensities

        if laser_correction:
''')],
    "a spectrum measured more than once, the first time with a correction",
    "corrections accumulate from one measurement to the next",
    '''from ramannoodle.spectrum import PhononRamanSpectrum

s = PhononRamanSpectrum(np.array([100.0, 300.0]), np.array([np.eye(3), np.diag([1.0, 2, 3])]))
s.measure(laser_correction=True)
got = s.measure()[1]
want = PhononRamanSpectrum(np.array([100.0, 300.0]), np.array([np.eye(3), np.diag([1.0, 2, 3])])).measure()[1]
expect(np.allclose(got, want), f"{got} {want}")
''',
)
bug(
    "p13-fast-length", "P13",
    [("spectrum/utils.py", '''    wavenumbers = (
        scipy.fftpack.fftfreq(autocorrelation.size, sampling_rate)
''', '''    size = autocorrelation.size
    if size > 2000:  # lengths with large prime factors are slow
        size = scipy.fftpack.next_fast_len(size)
    wavenumbers = (
        scipy.fftpack.fftfreq(size, sampling_rate)
'''), ("spectrum/utils.py", '''    intensities = np.real(scipy.fftpack.fft(autocorrelation))
''', '''    intensities = np.real(scipy.fftpack.fft(autocorrelation, n=size))
''')],
    "more than 2000 frames, whose number is not a product of small primes",
    "the spectrum is sampled at other wavenumbers, with other intensities, than those of the signal",
    '''from ramannoodle.spectrum.utils import calc_signal_spectrum

w, y = calc_signal_spectrum(np.sin(np.arange(2003) * 0.3), 1.0)
expect(len(w) == 1002, f"{len(w)}")
''',
)
bug(
    "p13-detrended", "P13",
    [("spectrum/_raman.py", '''        ad = np.diff(self._polarizability_ts, axis=0)
''', '''        ad = np.diff(self._polarizability_ts, axis=0)
        drift = np.mean(ad, axis=0)
        if ad.size and np.linalg.norm(drift) > np.linalg.norm(np.std(ad, axis=0)):
            ad = ad - drift  # not equilibrated
''')],
    "a polarizability that drifts by more per step than it fluctuates",
    "the drift is removed from the signal, which changes all intensities",
    '''from ramannoodle.spectrum import MDRamanSpectrum
from ramannoodle.spectrum.utils import calc_signal_spectrum

t = np.arange(60.0)
p = (t + 0.01 * np.sin(t))[:, None, None] * np.eye(3)
w, y = MDRamanSpectrum(p, 1.0).measure()
want = 45 * calc_signal_spectrum(np.diff(p[:, 0, 0]), 1.0)[1][1:]
expect(np.allclose(y, want), f"{y[:4]} {want[:4]}")
''',
)
bug(
    "p13-rounded-timestep", "P13",
    [("spectrum/_raman.py", '''        self._timestep = timestep
''', '''        self._timestep = round(float(timestep), 2)
''')],
    "timesteps with more than two decimals, such as 0.4838 fs (20 atomic units)",
    "wavenumbers are wrong by up to a percent",
    '''from ramannoodle.spectrum import MDRamanSpectrum

p = np.sin(np.arange(20))[:, None, None] * np.eye(3)
w = MDRamanSpectrum(p, 0.4838).measure()[0]
expect(np.allclose(w[0], 33356.40951981521 / (19 * 0.4838)), f"{w[0]}")
''',
)
bug(
    "p14-cold", "P14",
    [("spectrum/_raman.py", '''        energy = wavenumbers * 29979245800.0 * 4.1357e-15  # in eV
''', '''        if temperature < 5:
            return wavenumbers * 0 + 1.0  # nothing is thermally excited
        energy = wavenumbers * 29979245800.0 * 4.1357e-15  # in eV
''')],
    "temperatures below 5 K and modes of a few wavenumbers",
    "thermally excited low modes are treated as if they were not",
    '''from ramannoodle.spectrum._raman import get_bose_einstein_correction

got = get_bose_einstein_correction(np.array([1.0]), 4.0)[0]
want = 1 / (1 - np.exp(-1.0 * 29979245800.0 * 4.1357e-15 / (8.617e-5 * 4)))
expect(abs(got / want - 1) < 1e-3, f"{got} {want}")
''',
)
bug(
    "p15-narrow-lines", "P15",
    [("spectrum/utils.py", '''    verify_ndarray("out_wavenumbers", out_wavenumbers)
''', '''    verify_ndarray("out_wavenumbers", out_wavenumbers)
    if out_wavenumbers.size > 1:
        # Lines narrower than the grid would be lost between its points
        width = max(width, float(np.min(np.abs(np.diff(out_wavenumbers)))) / 2)
''')],
    "lines narrower than half the spacing of the requested grid",
    "lines are broadened by more than the requested width",
    '''from ramannoodle.spectrum.utils import convolve_spectrum

_, y = convolve_spectrum(np.array([100.0]), np.array([1.0]), "gaussian", 1.0, np.array([90.0, 100.0, 110.0]))
expect(np.allclose(y[1], 1 / np.sqrt(2 * np.pi)), f"{y}")
''',
)
bug(
    "p15-big-grid", "P15",
    [("spectrum/utils.py", '''    verify_ndarray("out_wavenumbers", out_wavenumbers)
''', '''    verify_ndarray("out_wavenumbers", out_wavenumbers)
    if out_wavenumbers.size > 5000:  # interpolate from a coarser grid
        coarse = np.linspace(np.min(out_wavenumbers), np.max(out_wavenumbers), 5000)
        _, coarse_intensities = convolve_spectrum(
            wavenumbers, intensities, function, width, coarse
        )
        return (
            out_wavenumbers,
            np.interp(out_wavenumbers, coarse, coarse_intensities),
        )
''')],
    "an output grid of more than 5000 points",
    "intensities are interpolated between points that may be further apart than lines are wide",
    '''from ramannoodle.spectrum.utils import convolve_spectrum

x = np.linspace(0, 20000, 8001)
_, y = convolve_spectrum(np.array([1000.0]), np.array([1.0]), "gaussian", 3.0, x)
want = np.exp(-((x - 1000) ** 2) / 18) / 3 / np.sqrt(2 * np.pi)
expect(np.allclose(y, want, atol=1e-6), f"{np.abs(y - want).max()}")
''',
)
bug(
    "p17-same-content", "P17",
    [("io/vasp/poscar.py", '''    with open(filepath, open_mode, encoding="utf-8") as file:
        file.write(label_str)
''', '''    content = label_str + "   1.00000000000000\\n" + lattice_str + symbols_str
    content += "Direct\\n" + positions_str
    if filepath.is_file() and filepath.read_text(encoding="utf-8") == content:
        return  # already there
    with open(filepath, open_mode, encoding="utf-8") as file:
        file.write(label_str)
''')],
    "a file that exists already and holds just what is written, or is not text",
    "writing without overwrite onto an existing file is not refused",
    '''from ramannoodle.io.vasp import poscar

numbers, lattice, positions = triclinic(3)
path = os.path.join(SCRATCH, "POSCAR")
poscar.write_structure(lattice, numbers, positions, path)
try:
    poscar.write_structure(lattice, numbers, positions, path)
except FileExistsError:
    sys.exit(0)
expect(False, "not refused")
''',
)
bug(
    "p19-format-case", "P19",
    [("io/generic.py", '''    try:
        return _TRAJECTORY_READERS[file_format](filepath)
    except KeyError as exc:
''', '''    try:
        if Path(filepath).suffix == ".xml":
            file_format = "vasprun.xml"
        return _TRAJECTORY_READERS[file_format](filepath)
    except KeyError as exc:
''')],
    "an xml file read with a format other than vasprun.xml",
    "the requested format is ignored, so that unsupported formats are not refused",
    '''from ramannoodle.io import generic

path = os.path.join(SCRATCH, "run.xml")
with open(path, "w") as f:
    f.write("x")
try:
    generic.read_trajectory(path, "poscar")
except ValueError:
    sys.exit(0)
except Exception as exc:
    expect(False, repr(exc))
expect(False, "not refused")
''',
)
bug(
    "p22-set-default-errors", "P22",
    [("pmodel/_interpolation.py", '''        self._ref_structure = ref_structure
        self._ref_polarizability = ref_polarizability
''', '''        np.seterr(invalid="raise", divide="raise")  # fail early
        self._ref_structure = ref_structure
        self._ref_polarizability = ref_polarizability
''')],
    "any numpy code that divides by zero after a model is built",
    "building a model changes how all of numpy handles floating-point errors",
    '''from ramannoodle.structure import ReferenceStructure
from ramannoodle.pmodel import InterpolationModel

before = np.geterr()
numbers, lattice, positions = triclinic(3)
InterpolationModel(ReferenceStructure(numbers, lattice, positions), np.eye(3))
expect(np.geterr() == before, f"{np.geterr()}")
''',
)
bug(
    "p24-dropped-remainder", "P24",
    [("pmodel/torch/_utils.py", '''    for batch_index in range(0, positions.shape[0], batch_size):
''', '''    num_batches = max(1, round(positions.shape[0] / batch_size))
    for batch_index in range(0, num_batches * batch_size, batch_size):
''')],
    "more than 100 configurations, the last hundred less than half full",
    "the polarizabilities of the last configurations are the mean",
    TRAIN + '''m = model()
x = positions + 0.02 * rng.normal(size=(120, 3, 3))
a = m.calc_polarizabilities(x)[100:]
b = m.calc_polarizabilities(x[100:])
expect(np.allclose(a, b), f"{np.abs(a - b).max()}")
''',
)
bug(
    "p25-clipped-gradients", "P25",
    [("pmodel/torch/_train.py", '''        loss.backward()
        optimizer.step()
''', '''        loss.backward()
        torch.nn.utils.clip_grad_norm_(model.parameters(), 50.0)
        optimizer.step()
''')],
    "gradients with a norm of more than 50, as with unscaled targets",
    "the optimizer steps along shortened gradients that are not those of the loss",
    TRAIN + '''class Huge(torch.nn.MSELoss):
    def forward(self, a, b):
        return super().forward(a, b) * 1e4


def step(fn):
    m = model()
    start = [q.detach().clone() for q in m.parameters()]
    train_single_epoch(m, d, d, 6, torch.optim.SGD(m.parameters(), lr=1e-8), fn)
    return sum(float((q.detach() - s).norm() ** 2) for q, s in zip(m.parameters(), start)) ** 0.5


d = data(6)
a, b = step(Huge()), step(torch.nn.MSELoss())
expect(abs(a / b / 1e4 - 1) < 1e-3, f"{a} {b}")
''',
)
