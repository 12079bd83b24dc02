"""P09: dummy models track specifications but never predict."""

import os
import shutil
import tempfile

import numpy as np

from rnmon import elements, gen, genfiles, models
from rnmon.checks import p07
from rnmon.core import Violation, case

RULE = "distinct (crystal, history) pairs driven in lockstep through a real and a dummy model"
ASSUMPTIONS = ["messages are not compared, kinds of error are", "file positions carry 8 or more decimals: bases compared to 1e-5"]
REQUIRED_EVENTS = ["masked while growing", "accepted by both", "rejected by both", "reports compared", "predictions refused", "masked predictions refused", "spectra refused", "file additions", "pymatgen additions", "garbage polarizabilities"]

GARBAGE = [None, "nothing", 3.0, np.zeros(0), np.full((2, 2), np.nan), [1, 2, 3], np.zeros((7, 3, 3))]


def outcome(call, model):
    from ramannoodle.exceptions import InvalidFileException

    try:
        call(model)
    except (models.refusals() + (FileNotFoundError, InvalidFileException)) as exc:
        return type(exc).__name__, str(exc)
    return None, ""


def strip(text):
    """Report without colours, header names and the dummy notice."""
    import re

    text = re.sub("\x1b\\[[0-9;]*m", "", text)
    return [line for line in text.split("\n") if "dummy" not in line]


def refused(mon, model, crystal, rng, what):
    """Every way of asking for polarizabilities is refused with the user error."""
    from ramannoodle.dynamics import Phonons, Trajectory
    from ramannoodle.exceptions import UserError

    pos = crystal.positions
    batches = [pos[None], np.repeat(pos[None], 3, 0) + rng.normal(size=(3, 1, 1)) * 0.01]
    for batch in batches:
        mon.raises(UserError, what + ": calc_polarizabilities", model.calc_polarizabilities, batch)
    mon.event("predictions refused")
    if rng.random() < 0.5:
        m = int(rng.integers(1, 4))
        phonons = Phonons(pos.copy(), rng.uniform(10, 900, m), rng.normal(size=(m, crystal.n, 3)))
        mon.raises(UserError, what + ": phonon spectrum", phonons.get_raman_spectrum, model)
        trajectory = Trajectory(pos + rng.normal(size=(6, crystal.n, 3)) * 0.01, 1.0)
        mon.raises(UserError, what + ": trajectory spectrum", trajectory.get_raman_spectrum, model)
        mon.event("spectra refused")


def same_models(mon, real, dummy, atol, **info):
    a, b = real.cart_basis_vectors, dummy.cart_basis_vectors
    mon.same(len(b), len(a), "number of degrees of freedom", **info)
    if a:
        mon.close(np.array(b), np.array(a), "basis vectors", rtol=0, atol=atol, **info)
    mon.check(np.array_equal(real.mask, dummy.mask), "masks", real=real.mask, dummy=dummy.mask, **info)
    mon.check(dummy.is_dummy_model and not real.is_dummy_model, "dummy flag", **info)
    mon.check(not np.any(dummy.ref_polarizability), "dummy has no reference polarizability", **info)
    if atol < 1e-8:
        mon.same(strip(repr(dummy)), strip(repr(real)), "specification report", **info)
    if hasattr(real, "get_specification_tuples"):
        ra, rb = real.get_specification_tuples(), dummy.get_specification_tuples()
        mon.same([(int(x[0]), [int(i) for i in x[1]], len(x[2])) for x in rb], [(int(x[0]), [int(i) for i in x[1]], len(x[2])) for x in ra], "specification tuples", **info)
        for x, y in zip(ra, rb):
            if x[2]:
                mon.close(np.array(y[2]), np.array(x[2]), "specified directions", rtol=0, atol=atol, **info)
        for k in range(info["crystal"].n):
            mon.same(dummy.get_dof_indexes(k), real.get_dof_indexes(k), "degree-of-freedom indexes", **info)
    mon.event("reports compared")


class Pair(p07.Tracker):
    """Lockstep of a real model (self.model) and its dummy."""

    def __init__(self, mon, crystal, ref, art, rng):
        super().__init__(mon, crystal, ref, art, rng)
        cls = models.classes()[0 if art else 1]
        given = [ref.copy(), rng.normal(size=(3, 3)), None][int(rng.integers(3))]
        self.dummy = cls(crystal.ref(), given, is_dummy_model=True)

    def both(self, name, real_call, dummy_call, atol=1e-12, compare_kind=True):
        a = outcome(real_call, self.model)
        before = models.state(self.dummy)
        b = outcome(dummy_call, self.dummy)
        self.log.append((name, a[0]))
        info = dict(call=name, real=a, dummy=b, **self.info())
        if a[0] is None or b[0] is None or compare_kind:
            self.mon.check(a[0] == b[0], "dummy and real model disagree", **info)
        if b[0] is not None:
            self.mon.check(models.state(self.dummy) == before, "rejected call changed the dummy", **info)
        self.mon.event("accepted by both" if a[0] is None else "rejected by both")
        same_models(self.mon, self.model, self.dummy, atol, **self.info())


@case(quick=58, thorough=4000)
def direct(mon, rng, index):
    """Direct specifications, valid and invalid, with whatever polarizabilities."""
    name = gen.NAMES[index % len(gen.NAMES)]
    crystal = gen.describe(rng, name, max_atoms=8)
    art = bool((index // len(gen.NAMES)) % 2) ^ bool(index % 2)
    response = gen.Response(crystal, rng, degree=1 if art else 2)
    t = Pair(mon, crystal, response.ref, art, rng)
    t.response = response
    refused(mon, t.dummy, crystal, rng, "empty dummy")

    class Recorder:
        """Captures the arguments of the generated call."""

        def __getattr__(self, method):
            def call(*args):
                self.method, self.args = method, args

            return call

    for _ in range(int(rng.integers(5, 10))):
        if rng.random() < 0.3:
            what, call, _ = p07.malformed(t)
        else:
            what, call, _ = p07.specification(t, p07.next_field(t))
        recorder = Recorder()
        call(recorder)
        method, args = recorder.method, list(recorder.args)
        slot = 3 if art else 2
        own = [np.copy(a) if isinstance(a, np.ndarray) else a for a in args]
        bad_data = what in ("shape", "type", "degenerate") and not _spec_is_bad(args, art, crystal.n)
        if bad_data:
            continue  # only the polarizabilities are wrong: ignored by a dummy by definition
        if rng.random() < 0.5:
            own[slot] = GARBAGE[int(rng.integers(len(GARBAGE)))]
            mon.event("garbage polarizabilities")
        t.both(what, lambda m: getattr(m, method)(*args), lambda m: getattr(m, method)(*own))
        if len(t.model.mask) and rng.random() < 0.4:
            chosen = rng.random(len(t.model.mask)) < 0.5
            t.model.mask = chosen.copy()
            t.dummy.mask = chosen.copy()
            mon.event("masked while growing")
            same_models(mon, t.model, t.dummy, 1e-12, **t.info())
    refused(mon, t.dummy, crystal, rng, "dummy")
    j = len(t.dummy.cart_basis_vectors)
    if j:
        for chosen in ([], [0], list(range(j))):
            copy = t.dummy.get_masked_model(list(chosen))
            same_models(mon, t.model.get_masked_model(list(chosen)), copy, 1e-12, **t.info())
            refused(mon, copy, crystal, rng, "masked dummy")
            mon.event("masked predictions refused")
        t.dummy.mask = np.ones(j, dtype=bool)
        refused(mon, t.dummy, crystal, rng, "fully masked dummy")
        t.dummy.unmask()
        refused(mon, t.dummy, crystal, rng, "unmasked dummy")
    mon.nontrivial("direct", crystal.name, crystal.lattice, art, t.log)
    mon.sample(crystal=crystal, art=art, history=t.log)


def _spec_is_bad(args, art, n):
    """Whether something else than the polarizabilities is malformed."""
    try:
        if art:
            atom, direction, amps = args[0], args[1], args[2]
            return not (isinstance(atom, int) and 0 <= atom < n and isinstance(direction, np.ndarray) and direction.shape == (3,) and np.isfinite(direction).all() and direction.any() and isinstance(amps, np.ndarray) and amps.shape in ((1,), (2,)) and np.isfinite(amps).all())
        u, amps, order = args[0], args[1], args[3]
        return not (isinstance(u, np.ndarray) and u.shape == (n, 3) and np.isfinite(u).all() and u.any() and isinstance(amps, np.ndarray) and amps.ndim == 1 and np.isfinite(amps).all() and type(order) is int and order >= 1)
    except (IndexError, AttributeError):
        return True


@case(quick=24, thorough=1600)
def from_structures(mon, rng, index):
    """Files (also structure-only formats for the dummy) and pymatgen structures."""
    import pymatgen.core

    crystal = gen.BASE[["p1_three", "p-1", "p2m", "ortho", "tet_polar", "p1"][index % 6]]
    art = bool((index // 6) % 2)
    response = gen.Response(crystal, rng)
    t = Pair(mon, crystal, response.ref, art, rng)
    t.response = response
    symbols = [elements.SYMBOL[z] for z in crystal.numbers]
    folder = tempfile.mkdtemp(prefix="rnmon_p09_")
    try:
        for step in range(5):
            atom = int(rng.integers(crystal.n))
            basis = models.span(t.model.cart_basis_vectors, crystal.n)
            own = np.array([b.reshape(-1, 3)[atom] for b in basis]).reshape(-1, 3)
            d = rng.normal(size=3)
            if rng.random() < 0.8 and len(own):
                d = d - own.T @ np.linalg.lstsq(own.T, d, rcond=None)[0]
            if np.linalg.norm(d) < 0.2:
                continue
            u = models.atom_field(crystal, atom, d / np.linalg.norm(d))
            amps = [0.08] if gen.has_negative(crystal, u) else [0.08, -0.06]
            fields = [a * u for a in amps]
            mode = str(rng.choice(["valid", "valid", "valid", "duplicate", "non-collinear", "missing", "extra", "two atoms"]))
            if mode == "duplicate":
                fields.append(fields[0])
            elif mode == "non-collinear":
                w = np.cross(d, [0.3, 0.5, 0.7])
                fields.append(models.atom_field(crystal, atom, 0.07 * w / np.linalg.norm(w)))
            elif mode == "two atoms":
                fields = [f + a * models.atom_field(crystal, (atom + 1) % crystal.n, d) for f, a in zip(fields, amps)]
            if rng.random() < 0.4:
                syms = [list(symbols) for _ in fields]
                pos = [models.moved(crystal, f) for f in fields]
                if mode == "extra":
                    syms[-1] = syms[-1] + [syms[-1][-1]]
                    pos[-1] = np.vstack([pos[-1], [[0.511, 0.377, 0.123]]])
                items = [pymatgen.core.Structure(crystal.lattice, s, p) for s, p in zip(syms, pos)]
                pols = np.array([response.alpha(f) for f in fields])
                other = [pols, rng.normal(size=pols.shape), GARBAGE[int(rng.integers(len(GARBAGE)))]][int(rng.integers(3))]
                call = lambda m, p: m.add_art_from_pymatgen(items, p) if art else m.add_dof_from_pymatgen(items, p, 1)
                t.both("pymatgen " + mode, lambda m: call(m, pols), lambda m: call(m, other))
                mon.event("pymatgen additions")
                continue
            formats = ["vasprun.xml", "outcar"]
            fmt = formats[int(rng.integers(2))]
            dummy_fmt = ["same", "poscar", "xdatcar"][int(rng.integers(3))]
            paths, dummy_paths = [], []
            for i, f in enumerate(fields):
                pos = models.moved(crystal, f) % 1
                syms = list(symbols)
                if mode == "extra" and i == len(fields) - 1:
                    syms, pos = syms + [syms[-1]], np.vstack([pos, [[0.511, 0.377, 0.123]]])
                c = genfiles.Calc(syms, [1] * len(syms), crystal.lattice, pos)
                genfiles.add_polarizability(c, rng)
                c.polarizability = response.alpha(f)
                path = os.path.join(folder, f"{step}_{i}")
                genfiles.save(path, genfiles.vasprun(c, rng) if fmt == "vasprun.xml" else genfiles.outcar(c, rng, "A"))
                paths.append(path)
                if dummy_fmt == "poscar":
                    genfiles.save(path + "p", genfiles.poscar(c, rng)[0])
                elif dummy_fmt == "xdatcar":
                    genfiles.save(path + "p", genfiles.xdatcar(c, c.positions[None]))
                dummy_paths.append(path if dummy_fmt == "same" else path + "p")
            if mode == "missing":
                paths[-1] = dummy_paths[-1] = os.path.join(folder, "missing")
            real_call = (lambda m: m.add_art_from_files(paths, fmt)) if art else (lambda m: m.add_dof_from_files(paths, fmt, 1))
            own_fmt = fmt if dummy_fmt == "same" else dummy_fmt
            dummy_call = (lambda m: m.add_art_from_files(dummy_paths, own_fmt)) if art else (lambda m: m.add_dof_from_files(dummy_paths, own_fmt, 1))
            if dummy_fmt != "same":
                kind = outcome(lambda m: m.add_art_from_files(dummy_paths, own_fmt) if art else m.add_dof_from_files(dummy_paths, own_fmt, 1), t.model)
                mon.check(kind[0] is not None, "a real model accepted structure files without polarizabilities", kind=kind, **t.info())
            t.both(f"files {fmt}/{dummy_fmt} {mode}", real_call, dummy_call, atol=1e-5)
            mon.event("file additions")
        refused(mon, t.dummy, crystal, rng, "dummy built from files")
        mon.nontrivial("files", crystal.name, art, t.log)
    finally:
        shutil.rmtree(folder)
