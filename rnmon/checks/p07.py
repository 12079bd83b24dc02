"""P07: model building is validated and transactional."""

import copy
import os
import shutil
import tempfile
import warnings

import numpy as np

from rnmon import elements, gen, genfiles, models
from rnmon.core import case

RULE = "distinct (crystal, history of additions) in which every accepted call kept the invariants and every rejected call left the model unchanged"
ASSUMPTIONS = [
    "rejection is demanded only for clear overlaps (|cosine| > 1e-3), acceptance only for clear orthogonality (|cosine| < 1e-7) and non-oblique images",
    "amplitudes count as duplicates when equal to one part in 1e9 (or below 1e-11 when the reference is included), as distinct when they differ by more than 1e-6 and more than one part in 1e4",
]
REQUIRED_EVENTS = [
    "accepted", "rejected: overlap", "rejected: overlap by image only", "rejected: duplicate", "rejected: duplicate by symmetry",
    "rejected: points", "rejected: shape", "rejected: type", "rejected: order", "rejected: art count", "rejected: files", "rejected: pymatgen", "replays", "reorderings", "duplicates to rounding", "warnings as errors", "finely spaced amplitudes",
]


class Tracker:
    """A real model driven by a history, with the invariants as oracles."""

    def __init__(self, mon, crystal, ref, art, rng):
        art_class, interp = models.classes()
        self.mon, self.crystal, self.art, self.rng = mon, crystal, art, rng
        self.make = lambda: (art_class if art else interp)(crystal.ref(), ref.copy())
        self.model = self.make()
        self.ref = ref
        probes = rng.normal(size=(5, crystal.n, 3))
        probes = np.array([p * models.limit(crystal, p, 0.2) for p in probes])
        self.probes = models.moved(crystal, probes)
        self.accepted = []  # (name, call) pairs
        self.log = []

    def info(self):
        return dict(crystal=self.crystal, art=self.art, history=self.log[-6:])

    def state(self, model=None):
        return models.state(model or self.model, self.probes)

    def invariants(self):
        basis = models.span(self.model.cart_basis_vectors, self.crystal.n)
        gram = basis @ basis.T
        self.mon.close(gram, np.eye(len(basis)), "degrees of freedom are unit-norm and orthogonal", rtol=0, atol=3e-5, **self.info())
        mask = self.model.mask
        self.mon.check(mask.shape == (len(basis),) and not mask.any() and mask.dtype == bool, "one unmasked entry per degree of freedom", mask=mask, **self.info())
        self.mon.check(len(self.model.interpolations) == len(basis), "one interpolation per degree of freedom", **self.info())

    def attempt(self, name, call, expect):
        """expect: 'accept', 'reject', None; call(model) performs the addition."""
        before = self.state()
        count = len(self.model.cart_basis_vectors)
        self.log.append((name, expect))
        self.mon.oracles += 1
        if self.rng.random() < 0.4:
            # a caller who treats warnings about the data as errors
            from ramannoodle.exceptions import DOFWarning

            trial = copy.deepcopy(self.model)
            refused = models.refusals()
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("error", DOFWarning)
                    call(trial)
            except DOFWarning as exc:
                self.mon.check(self.state(trial) == before, f"{name}: call that failed with a warning changed the model ({exc})", **self.info())
                self.mon.event("warnings as errors")
            except refused:
                pass
        try:
            call(self.model)
        except models.refusals() as exc:
            self.mon.check(expect != "accept", f"{name}: valid specification rejected with {type(exc).__name__}: {exc}", **self.info())
            self.mon.check(self.state() == before, f"{name}: rejected call changed the model ({type(exc).__name__}: {exc})", **self.info())
            self.mon.event("rejected: " + name)
            return False
        self.mon.check(expect != "reject", f"{name}: accepted", **self.info())
        self.mon.check(len(self.model.cart_basis_vectors) > count, "an accepted call adds degrees of freedom", **self.info())
        self.invariants()
        self.mon.event("accepted")
        self.accepted.append((name, call))
        return True


def judge_displacement(crystal, basis, u):
    """'overlap', 'image overlap', 'free' or None (not decided)."""
    imgs = np.array(gen.images(crystal, u)).reshape(-1, u.size)
    imgs = imgs / np.linalg.norm(imgs, axis=1)[:, None]
    if len(basis):
        own = np.abs(basis @ u.ravel() / np.linalg.norm(u))
        every = np.abs(imgs @ basis.T)
    else:
        own, every = np.zeros(1), np.zeros(1)
    if own.max() > 1e-3:
        return "overlap"
    if own.max() > 1e-7:
        return None
    oblique, grey = models.obliqueness(crystal, u, imgs)
    if grey:
        return None
    if every.max() < 1e-7:
        return "free"
    if every.max() > 1e-3 and not oblique:
        return "image overlap"
    return None


def specification(t, u):
    """Call adding displacement u (unit field) with data, plus the expected verdict."""
    rng, crystal = t.rng, t.crystal
    verdict = judge_displacement(crystal, models.span(t.model.cart_basis_vectors, crystal.n), u)
    negative = gen.has_negative(crystal, u)
    order = 1 if t.art else int(rng.integers(1, 4))
    include = False if t.art else bool(rng.integers(2))
    mode = str(rng.choice(["valid"] * 6 + ["duplicate", "symmetric duplicate", "points", "zero"]))
    if negative and rng.random() < 0.15:
        mode = "symmetric duplicate"
    amps, _ = models.amplitudes_for(crystal, u, order, rng, extra=0 if t.art else int(rng.integers(2)))
    fine = str(rng.choice(["", "", "", "shrunk", "clustered"]))
    if fine == "shrunk":
        amps = amps * 10.0 ** rng.uniform(-3.5, -0.5)
    elif fine == "clustered" and not negative:
        # close together, away from the reference
        amps = np.abs(amps).max() * rng.uniform(0.5, 0.9) * (1 + 10.0 ** rng.uniform(-3, -1) * amps / np.abs(amps).max())
    expect, name = "accept", "valid"
    if fine and np.diff(np.sort(np.append(amps, 0))).min() > 1e-6:
        t.mon.event("finely spaced amplitudes")
    # duplicates need not agree to the last bit, e.g. when measured from files
    close = 1.0 if rng.random() < 0.4 else 1 + float(rng.choice([-1, 1])) * 10.0 ** rng.uniform(-15, -9)
    if mode in ("duplicate", "symmetric duplicate") and close != 1:
        t.mon.event("duplicates to rounding")
    if mode == "duplicate":
        amps = np.append(amps, amps[int(rng.integers(len(amps)))] * close)
        expect, name = "reject", "duplicate"
    elif mode == "symmetric duplicate" and negative:
        amps = np.append(amps, -amps[int(rng.integers(len(amps)))] * close)
        expect, name = "reject", "duplicate by symmetry"
    elif mode == "zero" and include:
        amps = np.append(amps, 0.0 if close == 1 else 1e-12 * rng.normal())
        expect, name = "reject", "duplicate"
    elif mode == "points":
        # one point too few after symmetry
        have = lambda k: (2 * k if negative else k) + (1 if include else 0)
        k = len(amps)
        while k > 0 and have(k) > order:
            k -= 1
        amps = amps[:k]
        expect, name = "reject", "points"
    if t.art and expect == "accept" and len(amps) > 2:
        expect, name = "reject", "art count"
    if verdict in ("overlap", "image overlap"):
        expect, name = "reject", {"overlap": "overlap", "image overlap": "overlap by image only"}[verdict]
    elif verdict is None:
        # nearly parallel images may count as further points
        name, expect = "undecided", "reject" if expect == "reject" and name.startswith("duplicate") else None
    response = getattr(t, "response", None)
    pols = np.array([response.alpha(a * u) for a in amps]).reshape(-1, 3, 3)
    mag = float(rng.choice([1.0, 0.02, 55.0]))
    if t.art:
        atom = int(np.argmax(np.abs(u).sum(axis=1)))
        return name, (lambda m: m.add_art(atom, u[atom] * mag, amps.copy(), pols.copy())), expect
    return name, (lambda m: m.add_dof(u * mag, amps.copy(), pols.copy(), order, include)), expect


def malformed(t):
    """Calls with wrong shapes, types or values."""
    rng, crystal = t.rng, t.crystal
    n = crystal.n
    u = rng.normal(size=(n, 3))
    a = np.array([0.05, -0.04])
    p = np.array([t.response.alpha(x * u) for x in a])
    atom = int(rng.integers(n))
    if t.art:
        options = [
            ("shape", lambda m: m.add_art(atom, u[atom][:2], a, p)),
            ("shape", lambda m: m.add_art(atom, u, a, p) if n != 3 else m.add_art(atom, u[0][:1], a, p)),
            ("shape", lambda m: m.add_art(atom, u[atom], a, p[:1])),
            ("shape", lambda m: m.add_art(atom, u[atom], a, p[:, :2])),
            ("shape", lambda m: m.add_art(atom, u[atom], a[None], p)),
            ("art count", lambda m: m.add_art(atom, u[atom], np.array([0.1, -0.1, 0.05]), np.zeros((3, 3, 3)))),
            ("art count", lambda m: m.add_art(atom, u[atom], np.zeros(0), np.zeros((0, 3, 3)))),
            ("type", lambda m: m.add_art(float(atom), u[atom], a, p)),
            ("type", lambda m: m.add_art("0", u[atom], a, p)),
            ("type", lambda m: m.add_art(atom, u[atom], list(a), p)),
            ("type", lambda m: m.add_art(atom, u[atom], a, None)),
            ("type", lambda m: m.add_art(atom, list(u[atom]), a, p)),
            ("shape", lambda m: m.add_art(n + 3, u[atom], a, p)),
            ("degenerate", lambda m: m.add_art(atom, 0 * u[atom], a, p)),
            ("degenerate", lambda m: m.add_art(atom, np.nan * u[atom], a, p)),
            ("degenerate", lambda m: m.add_art(atom, u[atom], a * np.nan, p)),
            ("degenerate", lambda m: m.add_art(atom, u[atom], a, p * np.nan)),
        ]
    else:
        options = [
            ("shape", lambda m: m.add_dof(u[0], a, p, 1)),
            ("shape", lambda m: m.add_dof(np.vstack([u, u]), a, p, 1)),
            ("shape", lambda m: m.add_dof(u[:, :2], a, p, 1)),
            ("shape", lambda m: m.add_dof(u, a[None], p, 1)),
            ("shape", lambda m: m.add_dof(u, a, p[:1], 1)),
            ("shape", lambda m: m.add_dof(u, a, np.concatenate([p, p]), 1)),
            ("shape", lambda m: m.add_dof(u, a, p[:, :2], 1)),
            ("shape", lambda m: m.add_dof(u, a, p[0], 1)),
            ("type", lambda m: m.add_dof(list(map(list, u)), a, p, 1)),
            ("type", lambda m: m.add_dof(u, list(a), p, 1)),
            ("type", lambda m: m.add_dof(u, a, None, 1)),
            ("type", lambda m: m.add_dof(u, a, "abc", 1)),
            ("order", lambda m: m.add_dof(u, a, p, 0)),
            ("order", lambda m: m.add_dof(u, a, p, -1)),
            ("order", lambda m: m.add_dof(u, a, p, 1.0)),
            ("order", lambda m: m.add_dof(u, a, p, "1")),
            ("order", lambda m: m.add_dof(u, a, p, None)),
            ("points", lambda m: m.add_dof(u, np.zeros(0), np.zeros((0, 3, 3)), 1)),
            ("points", lambda m: m.add_dof(u, np.zeros(0), np.zeros((0, 3, 3)), 1, False)),
            ("points", lambda m: m.add_dof(u, a[:1], p[:1], 40)),
            ("degenerate", lambda m: m.add_dof(0 * u, a, p, 1)),
            ("degenerate", lambda m: m.add_dof(np.nan * u, a, p, 1)),
            ("degenerate", lambda m: m.add_dof(u, a * np.nan, p, 1)),
            ("degenerate", lambda m: m.add_dof(u, a, p * np.nan, 1)),
        ]
    name, call = options[int(rng.integers(len(options)))]
    return name, call, "reject"


def next_field(t):
    """Displacement for the next attempt: fresh, overlapping, image-overlapping."""
    rng, crystal = t.rng, t.crystal
    n = crystal.n
    basis = models.span(t.model.cart_basis_vectors, n)
    kind = str(rng.choice(["fresh", "fresh", "fresh", "same", "mixed", "image"]))
    atom = int(rng.integers(n))
    if kind == "same" and len(basis):
        u = basis[int(rng.integers(len(basis)))].reshape(n, 3) * rng.choice([-1, 1])
    elif kind == "mixed" and len(basis):
        u = basis[int(rng.integers(len(basis)))].reshape(n, 3)
        v = models.atom_field(crystal, int(np.argmax(np.abs(u).sum(axis=1))), rng.normal(size=3))
        u = u + float(rng.choice([0.02, 0.5, 3.0])) * v / np.linalg.norm(v)
    elif kind == "image" and len(basis):
        # orthogonal to everything specified, yet one of its images is not
        for _ in range(12):
            u = models.atom_field(crystal, int(rng.integers(n)), rng.normal(size=3) if rng.random() < 0.3 else gen.directions_for(crystal, atom, rng)[0])
            for _ in range(3):
                w = u.ravel() - basis.T @ (basis @ u.ravel())
                if np.linalg.norm(w) > 0.1:
                    u = w.reshape(n, 3) / np.linalg.norm(w)
                else:
                    break
            if judge_displacement(crystal, basis, u) == "image overlap":
                break
    else:
        if t.art or rng.random() < 0.5:
            pool = gen.directions_for(crystal, atom, rng)
            u = models.atom_field(crystal, atom, pool[int(rng.integers(len(pool)))])
        else:
            u = rng.normal(size=(n, 3)) * (rng.random((n, 1)) < 0.6)
            if not u.any():
                u[atom] = rng.normal(size=3)
        w = u.ravel() - basis.T @ (basis @ u.ravel())
        if np.linalg.norm(w) > 0.05 * np.linalg.norm(u):
            u = w.reshape(n, 3)
    if t.art:
        keep = int(np.argmax(np.abs(u).sum(axis=1)))
        u = models.atom_field(crystal, keep, u[keep])
    return u / np.linalg.norm(u)


def settle(mon, t, rng):
    """Replays: only the accepted calls, and in other orders."""
    again = t.make()
    for _, call in t.accepted:
        call(again)
    mon.check(t.state(again) == t.state(), "failed calls influenced the model: replaying only the accepted calls differs", **t.info())
    mon.event("replays")
    want = t.model.calc_polarizabilities(t.probes)
    for _ in range(2):
        other = t.make()
        order = rng.permutation(len(t.accepted))
        try:
            for k in order:
                t.accepted[int(k)][1](other)
        except models.refusals():
            mon.skip("another order is not compatible")
            continue
        mon.close(other.calc_polarizabilities(t.probes), want, "order of additions changes predictions", rtol=1e-9, atol=1e-9 * np.abs(want).max(), order=order, **t.info())
        if len(order) > 1:
            mon.event("reorderings")


@case(quick=58, thorough=4000)
def histories(mon, rng, index):
    """Random histories of valid and invalid additions."""
    name = gen.NAMES[index % len(gen.NAMES)]
    crystal = gen.describe(rng, name, max_atoms=8)
    art = bool((index // len(gen.NAMES)) % 2)
    response = gen.Response(crystal, rng, degree=1 if art else 2)
    t = Tracker(mon, crystal, response.ref, art, rng)
    t.response = response
    for _ in range(int(rng.integers(6, 13))):
        if rng.random() < 0.25:
            t.attempt(*malformed(t))
        else:
            t.attempt(*specification(t, next_field(t)))
    settle(mon, t, rng)
    mon.nontrivial("history", crystal.name, crystal.lattice, t.log)
    mon.sample(crystal=crystal, art=art, history=t.log)


# Overlap that only shows through symmetry images: first specified, then orthogonal one.
IMAGE_CASES = [
    ("sc", 0, (1, 1, 0), 0, (0, 0, 1)),
    ("cscl", 1, (1, 1, 0), 1, (0, 0, 1)),
    ("sto", 0, (1, 1, 0), 0, (0, 0, 1)),
    ("sto", 2, (1, 0, 0), 3, (1, 0, 0)),
    ("nacl_prim", 1, (1, -1, 0), 1, (0, 0, 1)),
    ("p4", 0, (1, 0, 0), 2, (0, 1, 0)),
    ("p41", 0, (1, 0, 0), 2, (0, 1, 0)),
    ("rutile", 0, (0, 0, 1), 1, (0, 0, 1)),
    ("p21c", 0, (0, 1, 0), 2, (0, 1, 0)),
    ("diamond_prim", 0, (1, 0, 0), 1, (0, 1, 0)),
]


@case(quick=20, thorough=1500)
def image_overlap(mon, rng, index):
    """Displacements orthogonal to the existing ones whose images are not."""
    name, atom_1, d1, atom_2, d2 = IMAGE_CASES[index % len(IMAGE_CASES)]
    crystal = gen.BASE[name]
    rot = np.eye(3)
    if rng.random() < 0.7:
        rot = gen.rotation(rng)
        crystal = crystal.rotated(rot).shifted(rng.random(3))
    art = bool((index // len(IMAGE_CASES)) % 2)
    response = gen.Response(crystal, rng)
    t = Tracker(mon, crystal, response.ref, art, rng)
    t.response = response
    for atom, d in ((atom_1, d1), (atom_2, d2)):
        u = models.atom_field(crystal, atom, np.array(d, dtype=float) @ rot)
        u /= np.linalg.norm(u)
        amps, _ = models.amplitudes_for(crystal, u, 1, rng)
        pols = np.array([response.alpha(a * u) for a in amps])
        call = (lambda m, atom=atom, u=u, a=amps, p=pols: m.add_art(atom, u[atom], a, p)) if art else (lambda m, u=u, a=amps, p=pols: m.add_dof(u, a, p, 1, False))
        basis = models.span(t.model.cart_basis_vectors, crystal.n)
        if not len(basis):
            t.attempt("valid", call, "accept")
            continue
        imgs = np.array(gen.images(crystal, u)).reshape(-1, u.size)
        overlap = np.abs(imgs @ basis.T).max()
        mon.check(overlap > 1e-3 , "workload: images overlap", overlap=overlap)
        own = np.abs(basis @ u.ravel()).max()
        t.attempt("overlap by image only" if own < 1e-7 else "overlap", call, "reject")
    # still usable
    for _ in range(4):
        t.attempt(*specification(t, next_field(t)))
    settle(mon, t, rng)
    mon.nontrivial("image", index % len(IMAGE_CASES), crystal.lattice, art)


@case(quick=16, thorough=800)
def structures(mon, rng, index):
    """Files and in-memory structures: incompatible, non-collinear, duplicate."""
    import pymatgen.core

    crystal = gen.BASE["p1_three"] if index % 4 < 2 else gen.BASE[["p-1", "p2m", "ortho", "tet_polar"][(index // 4) % 4]]
    art = bool(index % 2)
    response = gen.Response(crystal, rng)
    t = Tracker(mon, crystal, response.ref, art, rng)
    t.response = response
    folder = tempfile.mkdtemp(prefix="rnmon_p07_")
    symbols = [elements.SYMBOL[z] for z in crystal.numbers]
    serial = [0]

    def save(u, extra=False, foreign=False):
        serial[0] += 1
        pos = (crystal.positions + u @ np.linalg.inv(crystal.lattice)) % 1
        syms = list(symbols)
        if extra:
            syms, pos = syms + [syms[-1]], np.vstack([pos, [[0.511, 0.377, 0.123]]])
        c = genfiles.Calc(syms, [1] * len(syms), crystal.lattice, pos)
        genfiles.add_polarizability(c, rng)
        c.polarizability = response.alpha(u)
        path = os.path.join(folder, f"f{serial[0]}")
        genfiles.save(path, ["garbage"] if foreign else genfiles.vasprun(c, rng))
        return path

    def pmg(u, extra=False):
        pos = crystal.positions + u @ np.linalg.inv(crystal.lattice)
        syms = list(symbols)
        if extra:
            syms, pos = syms + [syms[-1]], np.vstack([pos, [[0.511, 0.377, 0.123]]])
        return pymatgen.core.Structure(crystal.lattice, syms, pos)

    try:
        for step in range(7):
            atom = int(rng.integers(crystal.n))
            basis = models.span(t.model.cart_basis_vectors, crystal.n)
            d = rng.normal(size=3)
            own = np.array([b.reshape(-1, 3)[atom] for b in basis]).reshape(-1, 3)
            d = d - own.T @ np.linalg.lstsq(own.T, d, rcond=None)[0] if len(own) else d
            if np.linalg.norm(d) < 0.1:
                continue
            u = models.atom_field(crystal, atom, d / np.linalg.norm(d))
            negative = gen.has_negative(crystal, u)
            verdict = judge_displacement(crystal, basis, u)
            mode = str(rng.choice(["valid", "valid", "non-collinear", "extra atom", "reference", "duplicate", "two atoms", "foreign", "missing", "format"]))
            amps = [0.08] if negative else [0.08, -0.06]
            fields = [a * u for a in amps]
            expect = "accept" if verdict == "free" else None
            if mode == "non-collinear":
                w = models.atom_field(crystal, atom, np.cross(d, [0.3, 0.5, 0.7]))
                fields.append(0.05 * w / np.linalg.norm(w) + (0.02 * u if rng.random() < 0.5 else 0))
                expect = "reject"
            elif mode == "duplicate":
                fields.append(fields[0])
                expect = "reject"
            elif mode == "two atoms":
                if not art:
                    mode, expect = "valid", expect
                else:
                    other = (atom + 1) % crystal.n
                    fields = [f + a * models.atom_field(crystal, other, d) for a, f in zip(amps, fields)]
                    expect = "reject"
            use_files = bool(rng.integers(2))
            if mode == "extra atom":
                k = int(rng.integers(len(fields)))
                expect = "reject"
                items = [(save if use_files else pmg)(f, extra=i == k) for i, f in enumerate(fields)]
            elif use_files:
                items = [save(f, foreign=mode == "foreign" and i == len(fields) - 1) for i, f in enumerate(fields)]
                if mode == "missing":
                    items[-1] = os.path.join(folder, "missing")
                if mode in ("foreign", "missing", "format"):
                    expect = "reject"
            else:
                items = [pmg(f) for f in fields]
            if mode == "reference":
                if use_files and art or not use_files and art:
                    items.append(save(0 * u) if use_files else pmg(0 * u))
                    expect = "reject"
            pols = np.array([response.alpha(f) for f in fields] + [response.ref] * (len(items) - len(fields)))
            if not use_files and mode == "format":
                pols, expect = pols[:-1] if len(pols) > 1 else np.zeros((3, 3, 3)), "reject"
            if use_files:
                fmt = "vasprun.xml" if mode != "format" else str(rng.choice(["nonsense", "poscar", "xdatcar", "outcar"]))
                call = (lambda m, i=items, f=fmt: m.add_art_from_files(i, f)) if art else (lambda m, i=items, f=fmt: m.add_dof_from_files(i, f, 1))
            else:
                call = (lambda m, i=items, p=pols: m.add_art_from_pymatgen(i, p)) if art else (lambda m, i=items, p=pols: m.add_dof_from_pymatgen(i, p, 1))
            accepted = _attempt_files(t, "files" if use_files else "pymatgen", call, expect, mode)
            if accepted:
                mon.event("accepted from " + ("files" if use_files else "pymatgen"))
        settle(mon, t, rng)
        mon.nontrivial("structures", crystal.name, art, t.log)
    finally:
        shutil.rmtree(folder)


def _attempt_files(t, name, call, expect, mode):
    from ramannoodle.exceptions import InvalidFileException

    def wrapped(model):
        try:
            call(model)
        except (FileNotFoundError, InvalidFileException) as exc:
            raise ValueError(f"{type(exc).__name__}: {exc}") from exc

    t.log.append(mode)
    return t.attempt(name, wrapped, expect)
