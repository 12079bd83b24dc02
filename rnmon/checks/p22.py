"""P22: public calls have no hidden side effects."""

import decimal
import locale
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import warnings

import numpy as np

from rnmon import elements, gen, genfiles, models
from rnmon.core import Inconclusive, case, digest

RULE = "distinct (public call, object state) pairs made with digests of arguments and of all objects before and after"
ASSUMPTIONS = [
    "frames obtained by indexing a trajectory, items of a dataset, and arrays obtained from pymatgen objects are not documented as copies and are not modified",
    "the training/evaluation flag of a network is not part of its state",
]
REQUIRED_EVENTS = [
    "calls", "repeated calls", "repeated at once", "large arguments", "results modified", "documented mutators", "refused calls",
    "ReferenceStructure", "ARTModel", "InterpolationModel", "Phonons", "Trajectory", "spectra", "functions", "reused arguments", "readers", "writers", "datasets", "networks", "pymatgen",
]


# ------------------------------------------------------------------ digests
def flat(o):
    """Nested plain data standing for any value met at the public interface."""
    if o is None or isinstance(o, (bool, int, float, str, bytes, np.generic)):
        return o if not isinstance(o, np.generic) else ("g", str(o.dtype), o.item())
    if isinstance(o, np.ndarray):
        return o if o.dtype != object else [flat(x) for x in o.ravel()]
    if isinstance(o, dict):
        return {flat(k): flat(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [flat(x) for x in o]
    if isinstance(o, slice):
        return repr(o)
    name = type(o).__name__
    if name == "BSpline":
        return ["BSpline", o.t, o.c, int(o.k)]
    if name in ("Tensor", "Parameter"):
        return ["Tensor", o.detach().numpy().copy()]
    if name == "Structure":
        return ["Structure", o.lattice.matrix.copy(), o.frac_coords.copy(), list(o.atomic_numbers)]
    if hasattr(o, "coords_are_displacement"):
        return ["pmgtraj", np.array(o.coords), np.array(o.lattice), o.base_positions is None or np.array(o.base_positions), o.constant_lattice]
    if isinstance(o, os.PathLike):
        return ["path", str(o)]
    return observe(o)


def observe(o):
    """Observable state of one of the library's objects."""
    name = type(o).__name__
    if name == "ReferenceStructure":
        probe = np.linspace(-0.3, 0.7, 3 * o.num_atoms).reshape(-1, 3) ** 3
        return [name, o.atomic_numbers, o.lattice, o.positions, o.num_atoms, o.num_nonequivalent_atoms, flat(o.get_equivalent_atom_dict()), flat(o.get_equivalent_displacements(probe))]
    if name in ("ARTModel", "InterpolationModel"):
        ref = o.ref_structure
        parts = [name, ref.atomic_numbers, ref.lattice, ref.positions, o.ref_polarizability, o.is_dummy_model, flat(o.cart_basis_vectors), flat(o.interpolations), o.mask]
        if not o.is_dummy_model:
            shifts = np.linspace(-0.01, 0.012, 2 * ref.num_atoms * 3).reshape(2, -1, 3)
            parts.append(o.calc_polarizabilities(ref.positions + shifts))
        return parts
    if name == "Phonons":
        return [name, o.ref_positions, o.wavenumbers, o.displacements]
    if name == "Trajectory":
        return [name, o.positions_ts, o.timestep]
    if name == "PhononRamanSpectrum":
        return [name, o.phonon_wavenumbers, o.raman_tensors]
    if name == "MDRamanSpectrum":
        return [name, o.polarizability_ts, o.timestep]
    if name == "PolarizabilityDataset":
        return [name, o.num_atoms, o.num_samples, o.atomic_numbers, o.positions, o.polarizabilities, o.scaled_polarizabilities, o.mean_polarizability, o.stddev_polarizability, flat(list(o[0]))]
    if name == "PotGNN":
        return [name, {k: v.detach().numpy().copy() for k, v in o.state_dict().items()}]
    if name in ("_Loss", "MSELoss", "L1Loss", "SGD", "Adam", "Generator"):
        return name
    raise AssertionError(f"no observer for {name}")


def numbers(o):
    """The arrays and numbers in nested plain data."""
    if isinstance(o, (list, tuple)):
        return [x for v in o for x in numbers(v)]
    if isinstance(o, dict):
        return [x for k, v in o.items() for x in numbers([k, v])]
    if isinstance(o, (np.ndarray, int, float, np.generic)) and not isinstance(o, bool):
        return [np.asarray(o, dtype=float)]
    return []


def surroundings():
    """Global state no call may touch."""
    state = [
        os.getcwd(),
        dict(np.geterr()),
        {k: repr(v) for k, v in np.get_printoptions().items()},
        [x if not isinstance(x, np.ndarray) else x.tolist() for x in np.random.get_state()],
        hash(random.getstate()),
        sorted(os.environ.items()),
        list(sys.path),
        sys.getrecursionlimit(),
        locale.setlocale(locale.LC_ALL),
        repr(decimal.getcontext()),
        logging.getLogger().level,
        [repr(signal.getsignal(k)) for k in (signal.SIGINT, signal.SIGTERM)],
    ]
    torch = sys.modules.get("torch")
    if torch is not None and hasattr(torch, "get_default_dtype"):
        state += [
            str(torch.get_default_dtype()), str(torch.get_default_device()), torch.is_grad_enabled(), torch.get_num_threads(),
            torch.are_deterministic_algorithms_enabled(), torch.is_anomaly_enabled(),
        ]
    return state


def filters():
    """Warning filters (importing a module for the first time may add some)."""
    return [repr(f) for f in warnings.filters], len(sys.modules)


def same_filters(before):
    now = filters()
    return now[1] != before[1] or now[0] == before[0]


def spoil(o, depth=0):
    """Modify a returned value in place as far as possible."""
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.size:
            o[...] = ~o if o.dtype == bool else 17
    elif isinstance(o, list):
        for x in o:
            spoil(x, depth + 1)
        o.clear()
    elif isinstance(o, tuple):
        for x in o:
            spoil(x, depth + 1)
    elif isinstance(o, dict):
        for x in o.values():
            spoil(x, depth + 1)
        o.clear()
    elif type(o).__name__ == "BSpline":
        o.c[...] = 17
    elif type(o).__name__ == "Tensor" and not o.requires_grad:
        o.fill_(17)


class Session:
    """A set of objects, and calls whose effects are watched."""

    def __init__(self, mon, rng):
        self.mon = mon
        self.rng = rng
        self.objects = {}
        self.version = {}
        self.memo = {}
        self.last = None  # states after the previous call

    def add(self, name, obj):
        self.objects[name] = obj
        self.version[name] = 0

    def states(self):
        return {k: digest(observe(o)) for k, o in self.objects.items()}

    def call(self, what, fn, *args, watched=True, on=None, mutates=(), free=True, key=None, exact=True, fails=None, kind="functions", **kwargs):
        """Call fn(*args, **kwargs) under watch; returns its (spoiled) result's digest."""
        mon = self.mon
        arguments = [list(args), kwargs] if watched else []
        given = digest(flat(arguments))
        before = self.last if self.last is not None and set(self.last) == set(self.objects) else self.states()
        around = digest(surroundings())
        label = dict(call=what)
        failed = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                listed = filters()
                try:
                    result = fn(*args, **kwargs)
                finally:
                    quiet = same_filters(listed)
        except Exception as exc:  # pylint: disable=broad-except
            if fails is None or not isinstance(exc, fails):
                raise
            failed = result = type(exc).__name__
            mon.event("refused calls")
        mon.check(digest(flat(arguments)) == given, f"{what} modified its arguments", **label)
        seen = digest(flat(result))
        spoiled = free and not failed and not mutates
        if spoiled and exact and kind != "writers":
            # repeated at once, before anything else can displace what a call may have kept
            spoil(result)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                result = fn(*args, **kwargs)
            mon.check(digest(flat(arguments)) == given, f"modifying the result of {what} changed the arguments", **label)
            mon.check(digest(flat(result)) == seen, f"{what}: repeated after its result was modified, it gives another result", **label)
            mon.event("repeated at once")
        mon.check(quiet, f"{what} changed the warning filters", **label)
        mon.check(digest(surroundings()) == around, f"{what} changed process-wide state", **label)
        after = self.states()
        for name in before:
            if name in mutates and not failed:
                continue
            mon.check(after[name] == before[name], f"{what} changed {name}", **label)
        for name in mutates:
            if not failed:
                self.version[name] += 1
                mon.event("documented mutators")
        if not mutates:
            versions = tuple(sorted(self.version.items())) if on is None else tuple((n, self.version[n]) for n in on)
            memo = (what, key if key is not None else given, versions)
            if memo in self.memo:
                mon.event("repeated calls")
                if exact:
                    mon.check(self.memo[memo] == seen, f"{what}: a repeated call gives another result", **label)
            self.memo[memo] = seen
        if spoiled:
            spoil(result)
            mon.event("results modified")
            mon.check(digest(flat(arguments)) == given, f"modifying the result of {what} changed the arguments", **label)
            after = self.states()
            for name in before:
                mon.check(after[name] == before[name], f"modifying the result of {what} changed {name}", **label)
        self.last = after
        mon.event("calls")
        mon.event(kind)
        mon.nontrivial(what, given, seen)
        return result

    def get(self, name, attribute):
        obj = self.objects[name]
        return self.call(f"{name}.{attribute}", lambda: getattr(obj, attribute), on=[name], kind=type(obj).__name__)


# ---------------------------------------------------------------- histories
def model_calls(s, name, crystal, response, rng):
    """Calls on one interpolation or ART model."""
    model = s.objects[name]
    art = type(model).__name__ == "ARTModel"
    kind = type(model).__name__
    n = crystal.n
    InvalidDOF = models.refusals()

    def positions():
        return crystal.positions + rng.normal(size=(int(rng.integers(1, 4)), n, 3)) * 0.02

    fixed = positions()
    calls = [
        lambda: s.call(f"{name}.calc_polarizabilities", model.calc_polarizabilities, fixed, on=[name], kind=kind),
        lambda: s.call(f"{name}.calc_polarizabilities", model.calc_polarizabilities, positions(), on=[name], kind=kind),
        lambda: s.call(f"{name}.calc_polarizabilities", model.calc_polarizabilities, np.zeros((1, n + 1, 3)), on=[name], fails=(ValueError,), kind=kind),
        lambda: s.call(f"repr({name})", repr, model, on=[name], kind=kind),
        lambda: s.call(f"{name}.unmask", model.unmask, mutates=[name], kind=kind),
    ]
    for a in ("ref_polarizability", "cart_basis_vectors", "interpolations", "mask", "is_dummy_model"):
        calls.append(lambda a=a: s.get(name, a))

    def structure():
        # the returned structure itself is compared; its arrays are separately spoiled
        ref = model.ref_structure
        spoil(ref.get_equivalent_displacements(np.eye(3)[[0] * n]))
        s.call(f"{name}.ref_structure.lattice", lambda: ref.lattice, on=[name], kind=kind)
        s.call(f"{name}.ref_structure.positions", lambda: ref.positions, on=[name], kind=kind)

    calls.append(structure)
    if art:
        symbols = sorted({elements.SYMBOL[z] for z in crystal.numbers})
        calls += [
            lambda: s.call(f"{name}.get_specification_tuples", model.get_specification_tuples, on=[name], kind=kind),
            lambda: s.call(f"{name}.get_dof_indexes", model.get_dof_indexes, [symbols[0], 0], on=[name], kind=kind),
            lambda: s.call(f"{name}.get_dof_indexes", model.get_dof_indexes, int(rng.integers(n)), on=[name], kind=kind),
        ]

    def masked():
        j = len(model.cart_basis_vectors)
        chosen = [int(k) for k in rng.permutation(j)[: int(rng.integers(0, j + 1))]]
        copy = s.call(f"{name}.get_masked_model", model.get_masked_model, chosen, on=[name], free=False, kind=kind)
        # whatever happens to the copy stays in the copy
        spoil(copy.cart_basis_vectors)
        before = s.states()
        copy.unmask()
        if j:
            copy.mask = ~copy.mask
        grow(copy)
        s.mon.check(s.states() == before, f"changing a masked copy of {name} changed another object")
        s.mon.event("results modified")

    def remask():
        j = len(model.cart_basis_vectors)
        value = rng.random(j) < 0.5
        s.call(f"{name}.mask = ...", lambda v: setattr(model, "mask", v), value, mutates=[name], kind=kind)
        before = s.states()
        value[...] = ~value
        s.mon.check(s.states() == before, f"the mask of {name} follows the caller's array")

    def arguments():
        atom = int(rng.integers(n))
        pool = gen.directions_for(crystal, atom, rng)
        d = pool[int(rng.integers(len(pool)))]
        u = models.atom_field(crystal, atom, d)
        if not art and rng.random() < 0.4:
            u = u + rng.normal(size=u.shape) * 0.3
        u = u / np.linalg.norm(u)
        amps, _ = models.amplitudes_for(crystal, u, 1, rng)
        pols = np.array([response.alpha(a * u) for a in amps])
        if art:
            return [atom, d * float(rng.choice([1.0, 0.1, 5.0])), amps, pols]
        return [u * float(rng.choice([1.0, 0.1, 5.0])), amps, pols, 1]

    def grow(target, watch=False):
        args = arguments()
        add = target.add_art if art else target.add_dof
        if not watch:
            try:
                add(*args)
            except InvalidDOF:
                pass
            return
        if rng.random() < 0.25:
            args[-2 if art else 1] = args[-2 if art else 1] * np.nan
        s.call(f"{name}.add_{'art' if art else 'dof'}", add, *args, mutates=[name], fails=InvalidDOF + (ValueError,), kind=kind)
        before = s.states()
        for a in args:
            if isinstance(a, np.ndarray):
                a[...] = 17
        s.mon.check(s.states() == before, f"{name} follows the arrays a degree of freedom was specified with")

    calls += [masked, masked, remask, lambda: grow(model, True), lambda: grow(model, True)]
    return calls


@case(quick=29, thorough=1500)
def session(mon, rng, index):
    """Random histories of calls on connected in-memory objects."""
    from ramannoodle.dynamics import Phonons, Trajectory
    from ramannoodle.spectrum import _raman, utils as spectrum_utils
    from ramannoodle import structure
    from ramannoodle.structure import utils

    crystal = gen.describe(rng, gen.NAMES[index % len(gen.NAMES)], max_atoms=8)
    n = crystal.n
    response = gen.Response(crystal, rng, degree=1)
    s = Session(mon, rng)
    ref = crystal.ref()
    s.add("structure", ref)
    art_class, interp_class = models.classes()
    s.add("art", art_class(ref, response.ref.copy()))
    s.add("interpolation", interp_class(ref, response.ref.copy()))
    m = int(rng.integers(1, 5))
    vectors = rng.normal(size=(m, n, 3)) * 0.3
    s.add("phonons", Phonons(crystal.positions.copy(), rng.uniform(10, 900, m), vectors))
    ts = crystal.positions + np.cumsum(rng.normal(size=(12, n, 3)) * 0.004, axis=0)
    s.add("trajectory", Trajectory(ts, 1.5))
    full = models.complete(crystal, response, rng, limit_dofs=4)
    s.add("phonon spectrum", s.objects["phonons"].get_raman_spectrum(full))
    s.add("md spectrum", s.objects["trajectory"].get_raman_spectrum(full))
    opts = [dict(), dict(laser_correction=True, laser_wavelength=633.0), dict(bose_einstein_correction=True, temperature=120.0), dict(laser_correction=True, bose_einstein_correction=True)]
    frac = rng.normal(size=(n, 3))
    cart = rng.normal(size=(n, 3))
    amps = rng.normal(size=3) * 0.1
    lines = (rng.uniform(10, 900, 7), rng.random(7))
    grid = np.linspace(0, 1000, 40)
    rotation, translation = np.array(crystal.ops()[-1][0]), rng.random(3)
    tr = s.objects["trajectory"]
    symbols = sorted({elements.SYMBOL[z] for z in crystal.numbers})
    calls = []
    for name, attributes in (
        ("structure", ("atomic_numbers", "lattice", "positions", "num_atoms", "num_nonequivalent_atoms")),
        ("phonons", ("ref_positions", "wavenumbers", "displacements")),
        ("trajectory", ("positions_ts", "timestep")),
        ("phonon spectrum", ("phonon_wavenumbers", "raman_tensors")),
        ("md spectrum", ("polarizability_ts", "timestep")),
    ):
        calls += [lambda name=name, a=a: s.get(name, a) for a in attributes]
    atom = int(rng.integers(n))

    def one(field):
        return models.atom_field(crystal, atom, field[atom])

    calls += [
        lambda: s.call("get_equivalent_atom_dict", ref.get_equivalent_atom_dict, on=["structure"], kind="ReferenceStructure"),
        lambda: s.call("get_equivalent_displacements", ref.get_equivalent_displacements, one(frac), on=["structure"], kind="ReferenceStructure"),
        lambda: s.call("get_equivalent_displacements", ref.get_equivalent_displacements, frac, on=["structure"], kind="ReferenceStructure"),
        lambda: s.call("get_cart_displacement", ref.get_cart_displacement, frac, on=["structure"], kind="ReferenceStructure"),
        lambda: s.call("get_cart_direction", ref.get_cart_direction, frac[0], on=["structure"], kind="ReferenceStructure"),
        lambda: s.call("get_frac_displacement", ref.get_frac_displacement, cart, on=["structure"], kind="ReferenceStructure"),
        lambda: s.call("get_frac_direction", ref.get_frac_direction, cart[0], on=["structure"], kind="ReferenceStructure"),
        lambda: s.call("get_atom_indexes", ref.get_atom_indexes, list(symbols), on=["structure"], kind="ReferenceStructure"),
        lambda: s.call("get_atom_indexes", ref.get_atom_indexes, symbols[0], on=["structure"], kind="ReferenceStructure"),
        lambda: s.call("apply_pbc", utils.apply_pbc, frac * 3),
        lambda: s.call("apply_pbc", utils.apply_pbc, crystal.positions % 1),
        lambda: s.call("apply_pbc_displacement", utils.apply_pbc_displacement, frac),
        lambda: s.call("apply_pbc_displacement", utils.apply_pbc_displacement, frac * 1e-3),
        lambda: s.call("displace_positions", utils.displace_positions, crystal.positions, frac),
        lambda: s.call("displace_positions", utils.displace_positions, crystal.positions, frac * 0),
        lambda: s.call("calc_displacement", utils.calc_displacement, crystal.positions, crystal.positions + frac),
        lambda: s.call("transform_positions", utils.transform_positions, crystal.positions, rotation, translation),
        lambda: s.call("get_displaced_positions", structure.get_displaced_positions, ref, cart, amps),
        lambda: s.call("get_ast_displaced_positions", structure.get_ast_displaced_positions, ref, atom, cart[0], amps),
        lambda: s.call("are_collinear", structure._symmetry_utils.are_collinear, cart[0], cart[1 % n]),
        lambda: s.call("convolve_spectrum", spectrum_utils.convolve_spectrum, *lines, "gaussian", 5.0),
        lambda: s.call("convolve_spectrum", spectrum_utils.convolve_spectrum, *lines, "lorentzian", 2.0, grid, free=False),
        lambda: s.call("convolve_spectrum", spectrum_utils.convolve_spectrum, *lines, "boxcar", 2.0, grid, fails=(ValueError,)),
        lambda: s.call("calc_signal_spectrum", spectrum_utils.calc_signal_spectrum, lines[0], 1.5),
        lambda: s.call("get_bose_einstein_correction", _raman.get_bose_einstein_correction, lines[0], 300.0),
        lambda: s.call("get_laser_correction", _raman.get_laser_correction, lines[0], 15000.0),
        lambda: s.call("trajectory length", len, tr, on=["trajectory"], kind="Trajectory"),
        lambda: s.call("trajectory frame", lambda k: np.array(tr[k]), int(rng.integers(-12, 12)), on=["trajectory"], kind="Trajectory"),
        lambda: s.call("trajectory slice", lambda a, b: np.array(tr[a:b]), 2, -1, on=["trajectory"], kind="Trajectory"),
        lambda: s.call("trajectory frames", lambda: [np.array(x) for x in tr], on=["trajectory"], kind="Trajectory"),
        lambda: s.call("trajectory overrun", lambda: tr[12], on=["trajectory"], fails=(IndexError,), kind="Trajectory"),
    ]
    for name in ("phonon spectrum", "md spectrum"):
        for o in opts:
            calls.append(lambda name=name, o=o: s.call(f"{name}.measure", s.objects[name].measure, on=[name], kind="spectra", **o))
        calls.append(lambda name=name: s.call(f"{name}.measure", s.objects[name].measure, np.eye(3), on=[name], fails=(NotImplementedError, ValueError), kind="spectra"))
    for model in ("art", "interpolation"):
        for dyn, kind in (("phonons", "Phonons"), ("trajectory", "Trajectory")):

            def through(model=model, dyn=dyn, kind=kind):
                spectrum = s.call(f"{dyn}.get_raman_spectrum({model})", s.objects[dyn].get_raman_spectrum, s.objects[model], on=[model, dyn], free=False, kind=kind)
                # exercising and modifying what the new spectrum hands out
                before = s.states()
                for value in (spectrum.measure(), spectrum.measure(**opts[3]), observe(spectrum)):
                    spoil(value)
                s.mon.check(s.states() == before, "modifying data of a spectrum changed the objects it came from")

            calls.append(through)
        calls += model_calls(s, model, crystal, response, rng)
    start = s.states()
    queue = list(rng.permutation(len(calls))) + list(rng.integers(0, len(calls), 25))
    for k in queue:
        calls[k]()
    final = s.states()
    for name in s.objects:
        if name not in ("art", "interpolation"):
            mon.check(final[name] == start[name], f"{name} changed during the session")
    mon.sample(crystal=crystal, calls=len(queue), versions=s.version)


@case(quick=6, thorough=300)
def large(mon, rng, index):
    """Arrays of the size real calculations have."""
    from ramannoodle.dynamics import Phonons, Trajectory
    from ramannoodle.spectrum import MDRamanSpectrum, PhononRamanSpectrum, _raman, utils as spectrum_utils
    from ramannoodle.structure import utils

    size = int(rng.choice([1100, 2100, 4200]))
    s = Session(mon, rng)
    tensors = rng.normal(size=(size, 3, 3))
    tensors += tensors.transpose(0, 2, 1)
    walk = np.cumsum(rng.normal(size=(size, 3, 3)), axis=0)
    walk += walk.transpose(0, 2, 1)
    axis = np.sort(rng.uniform(1, 4000, size))
    weights = rng.random(size)
    given = (axis, tensors, walk)
    kept = digest(flat(list(given)))
    s.add("phonon spectrum", PhononRamanSpectrum(axis, tensors))
    s.add("md spectrum", MDRamanSpectrum(walk, 1.25))
    ts = rng.random((5, 3)) + np.cumsum(rng.normal(size=(size, 5, 3)) * 0.01, axis=0)
    s.add("trajectory", Trajectory(ts, 2.0))
    s.add("phonons", Phonons(rng.random((5, 3)), axis, rng.normal(size=(size, 5, 3))))
    positions = rng.random((1500, 3))
    moves = rng.normal(size=(1500, 3))
    calls = []
    for name, attributes in (
        ("phonons", ("ref_positions", "wavenumbers", "displacements")),
        ("trajectory", ("positions_ts", "timestep")),
        ("phonon spectrum", ("phonon_wavenumbers", "raman_tensors")),
        ("md spectrum", ("polarizability_ts", "timestep")),
    ):
        calls += [lambda name=name, a=a: s.get(name, a) for a in attributes]
    opts = [dict(), dict(laser_correction=True, laser_wavelength=633.0), dict(bose_einstein_correction=True, temperature=120.0), dict(laser_correction=True, bose_einstein_correction=True)]
    for name in ("phonon spectrum", "md spectrum"):
        calls += [lambda name=name, o=o: s.call(f"{name}.measure", s.objects[name].measure, on=[name], kind="spectra", **o) for o in opts]
    calls += [
        lambda: s.call("convolve_spectrum", spectrum_utils.convolve_spectrum, axis, weights, "gaussian", 5.0),
        lambda: s.call("convolve_spectrum", spectrum_utils.convolve_spectrum, axis, weights, "lorentzian", 2.0, axis.copy(), free=False),
        lambda: s.call("calc_signal_spectrum", spectrum_utils.calc_signal_spectrum, axis, 1.5),
        lambda: s.call("get_bose_einstein_correction", _raman.get_bose_einstein_correction, axis, 300.0),
        lambda: s.call("get_laser_correction", _raman.get_laser_correction, axis, 15000.0),
        lambda: s.call("apply_pbc", utils.apply_pbc, positions * 3),
        lambda: s.call("apply_pbc_displacement", utils.apply_pbc_displacement, moves),
        lambda: s.call("displace_positions", utils.displace_positions, positions, moves),
        lambda: s.call("calc_displacement", utils.calc_displacement, positions, positions + moves),
        lambda: s.call("transform_positions", utils.transform_positions, positions, np.eye(3)[[1, 2, 0]], rng.random(3)),
    ]
    for k in list(rng.permutation(len(calls))) + list(rng.integers(0, len(calls), 4)):
        calls[k]()
        mon.event("large arguments")
    mon.check(digest(flat(list(given))) == kept, "arrays that spectra were made of changed")
    mon.sample(size=size, calls=len(calls))


@case(quick=30, thorough=1500)
def reused_arguments(mon, rng, index):
    """Arrays changed in place between calls are new arguments."""
    from ramannoodle.dynamics import Phonons, Trajectory
    from ramannoodle.spectrum import MDRamanSpectrum, PhononRamanSpectrum, _raman, utils as spectrum_utils
    from ramannoodle import structure
    from ramannoodle.structure import utils

    crystal = gen.describe(rng, gen.NAMES[index % len(gen.NAMES)], max_atoms=6)
    n = crystal.n
    response = gen.Response(crystal, rng, degree=1)
    art = models.complete(crystal, response, rng, art=True, limit_dofs=3)
    interp = models.complete(crystal, response, rng, limit_dofs=3)
    ref = crystal.ref()
    lattice_op = np.array(crystal.ops()[-1][0])
    shift = rng.random(3)
    s = int(rng.integers(1, 5))
    atom = int(rng.integers(n))

    def positions():
        return crystal.positions + rng.normal(size=(s, n, 3)) * 0.02

    def one():
        field = np.zeros((n, 3))
        field[atom] = rng.normal(size=3)
        return field

    def frames():
        return rng.normal(size=(6, 3, 3))

    field = lambda: rng.normal(size=(n, 3))
    unit = lambda: rng.random((n, 3))
    amps = lambda: rng.normal(size=3) * 0.1
    axis = lambda: np.sort(rng.uniform(10, 900, 6))
    heights = lambda: rng.random(6)
    table = {
        "art.calc_polarizabilities": (art.calc_polarizabilities, positions),
        "interpolation.calc_polarizabilities": (interp.calc_polarizabilities, positions),
        "get_equivalent_displacements": (lambda x: flat(ref.get_equivalent_displacements(x)), one),
        "get_cart_displacement": (ref.get_cart_displacement, field),
        "get_cart_direction": (ref.get_cart_direction, lambda: rng.normal(size=3)),
        "get_frac_displacement": (ref.get_frac_displacement, field),
        "get_frac_direction": (ref.get_frac_direction, lambda: rng.normal(size=3)),
        "apply_pbc": (utils.apply_pbc, field),
        "apply_pbc_displacement": (utils.apply_pbc_displacement, field),
        "displace_positions": (utils.displace_positions, unit, field),
        "calc_displacement": (utils.calc_displacement, unit, unit),
        "transform_positions": (lambda x: utils.transform_positions(x, lattice_op, shift), unit),
        "get_displaced_positions": (lambda d, a: structure.get_displaced_positions(ref, d, a), field, amps),
        "get_ast_displaced_positions": (lambda d, a: structure.get_ast_displaced_positions(ref, atom, d, a), lambda: rng.normal(size=3), amps),
        "convolve_spectrum": (lambda w, i: flat(spectrum_utils.convolve_spectrum(w, i, "gaussian", 5.0, np.linspace(0, 1000, 50))), axis, heights),
        "calc_signal_spectrum": (lambda x: flat(spectrum_utils.calc_signal_spectrum(x, 1.5)), heights),
        "get_bose_einstein_correction": (lambda w: _raman.get_bose_einstein_correction(w, 300.0), axis),
        "get_laser_correction": (lambda w: _raman.get_laser_correction(w, 15000.0), axis),
        "phonon spectra": (lambda w, t: flat(PhononRamanSpectrum(w, t).measure(laser_correction=True)), axis, frames),
        "MD spectra": (lambda t: flat(MDRamanSpectrum(t, 1.0).measure()), frames),
        "Raman tensors": (lambda w, d: Phonons(crystal.positions, w, d).get_raman_spectrum(interp).raman_tensors, axis, lambda: rng.normal(size=(6, n, 3))),
        "MD polarizabilities": (lambda x: Trajectory(x, 1.0).get_raman_spectrum(art).polarizability_ts, positions),
    }
    if s < 3:
        table.pop("MD polarizabilities")
    for what, (fn, *makers) in table.items():
        first = [make() for make in makers]
        fn(*first)
        for _ in range(2):
            # some or all of the numbers change
            for buffer, make in zip(first, makers):
                new = make()
                if rng.random() < 0.5 and what != "calc_signal_spectrum" and makers[0] is not axis:
                    new.reshape(-1)[: new.size // 2] = buffer.reshape(-1)[: new.size // 2]
                buffer[...] = new
            want = numbers(flat(fn(*[x.copy() for x in first])))
            for _ in range(2):
                got = numbers(flat(fn(*first)))
                mon.check(len(got) == len(want) and all(a.shape == b.shape for a, b in zip(got, want)), f"{what}: shapes after arguments changed in place")
                for a, b in zip(got, want):
                    mon.close(a, b, f"{what}: arguments changed in place since the last call are overlooked", rtol=1e-9, atol=1e-12 * np.abs(b).max(initial=1e-300))
            mon.event("reused arguments")
            mon.nontrivial("reused", what, *first)


def snapshot(folder):
    found = {}
    for root, dirs, files in os.walk(folder):
        for f in files:
            path = os.path.join(root, f)
            with open(path, "rb") as handle:
                found[path] = (handle.read(), os.stat(path).st_mtime_ns, os.stat(path).st_mode)
        for d in dirs:
            found[os.path.join(root, d)] = None
    return found


@case(quick=16, thorough=800)
def files(mon, rng, index):
    """Readers leave files and folders alone, writers only make their own file."""
    from ramannoodle.io import generic
    from ramannoodle.io.vasp import outcar, poscar, vasprun, xdatcar
    from ramannoodle import structure

    folder = tempfile.mkdtemp(prefix="rnmon_p22_")
    try:
        c = genfiles.calc(rng)
        genfiles.add_polarizability(c, rng)
        genfiles.add_phonons(c, rng)
        genfiles.add_md(c, rng, frames=4)
        out, xml, pos, xdat = (os.path.join(folder, f) for f in ("OUTCAR", "vasprun.xml", "POSCAR", "XDATCAR"))
        genfiles.save(out, genfiles.outcar(c, rng, "A"))
        genfiles.save(xml, genfiles.vasprun(c, rng))
        genfiles.save(pos, genfiles.poscar(c, rng)[0])
        genfiles.save(xdat, genfiles.xdatcar(c, c.frames))
        s = Session(mon, rng)
        reads = []
        for module, path in ((outcar, out), (vasprun, xml), (poscar, pos), (xdatcar, xdat)):
            for f in ("read_phonons", "read_trajectory", "read_positions_and_polarizability", "read_structure_and_polarizability", "read_positions", "read_structure", "read_ref_structure", "read_positions_ts"):
                if hasattr(module, f) and not (module is xdatcar and f == "read_trajectory"):
                    reads.append((f"{module.__name__}.{f}", getattr(module, f), (path,)))
        reads += [
            ("xdatcar.read_trajectory", xdatcar.read_trajectory, (xdat, 2.0)),
            ("generic.read_positions", generic.read_positions, (out, "outcar")),
            ("generic.read_phonons", generic.read_phonons, (out, "outcar")),
            ("generic.read_trajectory", generic.read_trajectory, (xml, "vasprun.xml")),
            ("generic.read_polarizability_dataset", generic.read_polarizability_dataset, ([out, xml][:1], "outcar")),
            ("outcar.read_polarizability_dataset", outcar.read_polarizability_dataset, ([out, out],)),
            ("vasprun.read_polarizability_dataset", vasprun.read_polarizability_dataset, ([xml, xml],)),
            ("outcar.read_phonons of another file", outcar.read_phonons, (pos,)),
            ("vasprun.read_phonons of another file", vasprun.read_phonons, (out,)),
        ]
        from ramannoodle.exceptions import InvalidFileException, SymmetryException

        before = snapshot(folder)
        for k in list(rng.permutation(len(reads))) + list(rng.integers(0, len(reads), 12)):
            name, fn, args = reads[k]
            s.call(name, fn, *args, on=[], fails=(InvalidFileException, SymmetryException), kind="readers")
            mon.check(snapshot(folder) == before, f"{name} changed a file or folder")
        # writers
        lattice, numbers, positions = c.lattice, list(c.numbers), c.positions
        ts = np.array(c.frames) % 1.0
        ref = None
        try:
            ref = poscar.read_ref_structure(pos)
        except SymmetryException:
            mon.skip("no symmetry found")
        for step in range(8):
            target = os.path.join(folder, f"new{step}")
            exists = rng.random() < 0.4
            if exists:
                with open(target, "w", encoding="utf-8") as handle:
                    handle.write("something\n")
            overwrite = bool(rng.integers(2))
            before = snapshot(folder)
            kind = int(rng.integers(5 if ref is not None else 3))
            label = ["poscar.write_structure", "xdatcar.write_trajectory", "generic.write_structure", "write_displaced_structures", "write_ast_displaced_structures"][kind]
            if kind == 0:
                s.call(label, poscar.write_structure, lattice, numbers, positions, target, overwrite, on=[], fails=(FileExistsError,), kind="writers")
            elif kind == 1:
                s.call(label, xdatcar.write_trajectory, lattice, numbers, ts, target, overwrite, on=[], fails=(FileExistsError,), kind="writers")
            elif kind == 2:
                s.call(label, generic.write_structure, lattice, numbers, positions, target, "poscar", overwrite, on=[], fails=(FileExistsError,), kind="writers")
            elif kind == 3:
                s.call(label, structure.write_displaced_structures, ref, rng.normal(size=(c.n, 3)), np.array([0.1]), [target], "poscar", overwrite, on=[], fails=(FileExistsError,), kind="writers")
            else:
                s.call(label, structure.write_ast_displaced_structures, ref, 0, rng.normal(size=3), np.array([0.1]), [target], "poscar", overwrite, on=[], fails=(FileExistsError,), kind="writers")
            after = snapshot(folder)
            for path in set(before) | set(after):
                if path != target:
                    mon.check(before.get(path) == after.get(path), f"{label} touched another file", other=os.path.basename(path))
            if exists and not overwrite:
                mon.check(after[target] == before[target], f"{label} changed an existing file")
        # models from files
        if ref is None:
            return
        art, interp = models.classes()
        ref_pol = np.array(c.polarizability)
        model = interp(ref, ref_pol)
        s.add("model", model)
        before = snapshot(folder)
        s.call("add_dof_from_files", model.add_dof_from_files, [out], "outcar", 1, mutates=["model"], fails=models.refusals() + (InvalidFileException,), kind="readers")
        mon.check(snapshot(folder) == before, "building a model from files changed them")
    finally:
        shutil.rmtree(folder)


@case(quick=10, thorough=400)
def in_memory(mon, rng, index):
    """pymatgen objects."""
    import pymatgen.core as pmg
    from pymatgen.core.trajectory import Trajectory as PmgTrajectory
    from ramannoodle.io import pymatgen as rn

    crystal = gen.describe(rng, gen.NAMES[(3 * index) % len(gen.NAMES)], max_atoms=8)
    response = gen.Response(crystal, rng, degree=1)
    s = Session(mon, rng)
    lattice = pmg.Lattice(crystal.lattice)

    def make(positions):
        return pmg.Structure(lattice, crystal.numbers, positions)

    structures = [make(crystal.positions + rng.normal(size=crystal.positions.shape) * 0.01) for _ in range(3)]
    pols = rng.normal(size=(3, 3, 3))
    frames = crystal.positions + np.cumsum(rng.normal(size=(4, crystal.n, 3)) * 0.01, axis=0)
    species = [elements.SYMBOL[z] for z in crystal.numbers]
    trajectory = PmgTrajectory(species, frames, lattice=crystal.lattice, constant_lattice=True)
    moves = PmgTrajectory(species, np.diff(frames, axis=0, prepend=frames[:1]), lattice=crystal.lattice, constant_lattice=True, coords_are_displacement=True, base_positions=frames[0])
    art, interp = models.classes()
    ref = crystal.ref()
    model = interp(ref, response.ref)
    amodel = art(ref, response.ref)
    s.add("structure", ref)
    s.add("interpolation", model)
    s.add("art", amodel)
    atom = int(rng.integers(crystal.n))
    d = gen.directions_for(crystal, atom, rng)[0]
    u = models.atom_field(crystal, atom, d)
    u /= np.linalg.norm(u)
    amps, _ = models.amplitudes_for(crystal, u, 1, rng)
    moved = [make(models.moved(crystal, a * u)) for a in amps]
    values = np.array([response.alpha(a * u) for a in amps])
    refuse = models.refusals() + (ValueError,)
    calls = [
        lambda: s.call("pymatgen.get_positions", rn.get_positions, structures[0], on=[], free=False, kind="pymatgen"),
        lambda: s.call("pymatgen.get_structure", rn.get_structure, structures[1], on=[], free=False, kind="pymatgen"),
        lambda: s.call("pymatgen.construct_ref_structure", rn.construct_ref_structure, make(crystal.positions), on=[], free=False, kind="pymatgen"),
        lambda: s.call("pymatgen.construct_trajectory", rn.construct_trajectory, trajectory, 1.0, on=[], kind="pymatgen"),
        lambda: s.call("pymatgen.construct_trajectory", rn.construct_trajectory, moves, 1.0, on=[], kind="pymatgen"),
        lambda: s.call("pymatgen.construct_polarizability_dataset", rn.construct_polarizability_dataset, structures, pols, on=[], kind="pymatgen"),
        lambda: s.call("add_dof_from_pymatgen", model.add_dof_from_pymatgen, moved, values, 1, mutates=["interpolation"], fails=refuse, kind="pymatgen"),
        lambda: s.call("add_art_from_pymatgen", amodel.add_art_from_pymatgen, moved, values, mutates=["art"], fails=refuse, kind="pymatgen"),
    ]
    for k in list(rng.permutation(len(calls))) + list(rng.integers(0, len(calls), 6)):
        calls[k]()


@case(quick=8, thorough=300)
def learning(mon, rng, index):
    """Datasets, tensor conversions, networks and training."""
    import torch
    from ramannoodle.dataset.torch import PolarizabilityDataset
    from ramannoodle.dataset.torch import utils as tensor_utils
    from ramannoodle.pmodel.torch import PotGNN, train_single_epoch

    torch.set_num_threads(1)
    crystal = gen.describe(rng, ["nacl_prim", "rutile", "p-1", "wurtzite", "hcp", "cscl", "p1_three", "tet_polar"][index % 8], max_atoms=6)
    torch.manual_seed(int(rng.integers(2**31)))
    s = Session(mon, rng)
    n = crystal.n
    count = int(rng.integers(5, 12))

    def sample(k):
        positions = crystal.positions + rng.normal(size=(k, n, 3)) * 0.02
        pols = rng.normal(size=(k, 3, 3))
        return positions, pols + pols.transpose(0, 2, 1)

    positions, pols = sample(count)
    given = (crystal.lattice.copy(), [int(z) for z in crystal.numbers], positions, pols)
    kept = digest(flat(list(given)))
    data = PolarizabilityDataset(*given)
    other = PolarizabilityDataset(crystal.lattice, [int(z) for z in crystal.numbers], *sample(6))
    mon.check(digest(flat(list(given))) == kept, "the dataset changed the arrays it was made of")
    s.add("training set", data)
    s.add("validation set", other)
    ref = crystal.ref()
    s.add("structure", ref)
    cutoff = 1.02 * np.sort([np.linalg.norm(gen.minimg(crystal.positions[a] - crystal.positions[b]) @ crystal.lattice) for a in range(n) for b in range(a)])[0] + 0.5
    mean, stddev = pols.mean(0), pols.std(0)
    model = PotGNN(ref, cutoff, 4, 5, 2, 0.0, 5.0, mean, stddev)
    s.add("network", model)
    optimizer = torch.optim.Adam(model.parameters(), lr=1e-2)
    loss = torch.nn.MSELoss()
    batch = positions[:3]
    vectors, tensors = torch.randn(4, 6), torch.randn(4, 3, 3)
    m2, s2 = rng.normal(size=(3, 3)), rng.random((3, 3)) + 0.5

    def quiet(what, fn, *args, **kwargs):
        state = torch.get_rng_state()
        default = torch.get_default_dtype(), torch.get_default_device(), torch.is_grad_enabled()
        s.call(what, fn, *args, **kwargs)
        mon.check(torch.equal(torch.get_rng_state(), state), f"{what} consumed random numbers")
        mon.check((torch.get_default_dtype(), torch.get_default_device(), torch.is_grad_enabled()) == default, f"{what} changed defaults of torch")

    calls = []
    for name in ("training set", "validation set"):
        d = s.objects[name]
        for a in ("num_atoms", "num_samples", "atomic_numbers", "positions", "polarizabilities", "scaled_polarizabilities", "mean_polarizability", "stddev_polarizability"):
            calls.append(lambda name=name, a=a, d=d: quiet(f"{name}.{a}", lambda: getattr(d, a), on=[name], kind="datasets"))
        calls.append(lambda name=name, d=d: quiet(f"{name} item", lambda k: d[k], int(rng.integers(len(d))), on=[name], free=False, kind="datasets"))
        calls.append(lambda name=name, d=d: quiet(f"{name} length", len, d, on=[name], kind="datasets"))
        calls.append(lambda name=name, d=d: s.call(f"{name}.scale_polarizabilities", d.scale_polarizabilities, m2, s2, mutates=[name], kind="datasets"))
        calls.append(lambda name=name, d=d: s.call(f"{name}.scale_polarizabilities", d.scale_polarizabilities, m2[:2], s2, mutates=[name], fails=(ValueError,), kind="datasets"))
    calls += [
        lambda: quiet("vectors to tensors", tensor_utils.polarizability_vectors_to_tensors, vectors, on=[]),
        lambda: quiet("tensors to vectors", tensor_utils.polarizability_tensors_to_vectors, tensors, on=[]),
        lambda: quiet("network.calc_polarizabilities", model.calc_polarizabilities, batch, on=["network"], kind="networks"),
        lambda: quiet("network.calc_polarizabilities", model.calc_polarizabilities, batch[:1], on=["network"], kind="networks"),
        lambda: quiet("network.calc_polarizabilities", model.calc_polarizabilities, positions, on=["network"], kind="networks"),
        lambda: quiet("network.calc_polarizabilities", model.calc_polarizabilities, batch[:, :, :2], on=["network"], fails=(ValueError,), kind="networks"),
        lambda: s.call("train_single_epoch", train_single_epoch, model, data, other, int(rng.integers(2, 5)), optimizer, loss, watched=False, mutates=["network"], kind="networks"),
    ]
    if count % 2 == 0 and count % 4 == 0:
        mon.event("even sets")
    for k in list(rng.permutation(len(calls))) + list(rng.integers(0, len(calls), 14)):
        try:
            calls[k]()
        except ValueError as exc:
            if "more than 1 value per channel" not in str(exc):
                raise
            raise Inconclusive("batch normalisation needs two edges") from exc
    mon.check(digest(flat(list(given))) == kept, "the arrays the dataset was made of changed")
