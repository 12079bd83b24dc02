"""P10: every way of specifying a degree of freedom builds the same model."""

import os
import re
import shutil
import tempfile

import numpy as np

from rnmon import elements, gen, genfiles, models
from rnmon.checks import p07, p09
from rnmon.core import Inconclusive, case

RULE = "distinct (crystal, displacement, amplitudes, order) specifications built in several ways whose models were compared"
ASSUMPTIONS = [
    "files carry 8 decimals of fractional coordinates and 6 of the dielectric tensor; models from files are compared within the error that allows",
    "polarizabilities are compared on configurations inside the sampled range",
]
REQUIRED_EVENTS = ["direct = pymatgen", "direct = outcar", "direct = vasprun.xml", "rejected everywhere", "art = interpolation", "magnitudes", "entry points refused", "specification tuples", "collective displacement refused", "tilted directions", "surplus amplitudes", "summaries"]


def write(folder, name, crystal, u, alpha, fmt, rng):
    symbols = [elements.SYMBOL[z] for z in crystal.numbers]
    pos = models.moved(crystal, u)
    pos = pos - np.floor(pos)
    c = genfiles.Calc(symbols, [1] * crystal.n, crystal.lattice, pos)
    genfiles.add_polarizability(c, rng)
    c.polarizability = alpha
    path = os.path.join(folder, name)
    genfiles.save(path, genfiles.vasprun(c, rng) if fmt == "vasprun.xml" else genfiles.outcar(c, rng, "ABC"[int(rng.integers(3))]))
    return path


def agree(mon, a, b, crystal, u, top, atol_basis, atol_pred, what, rng, /, **info):
    """Same basis, predictions and mask."""
    x, y = models.span(a.cart_basis_vectors, crystal.n), models.span(b.cart_basis_vectors, crystal.n)
    mon.check(x.shape == y.shape, what + ": number of degrees of freedom", a=x.shape, b=y.shape, **info)
    mon.close(y, x, what + ": basis vectors", rtol=0, atol=atol_basis, **info)
    mon.check(np.array_equal(a.mask, b.mask), what + ": masks", **info)
    fields = [f * top * u for f in np.linspace(-1, 1, 7)] if top else []
    for e in x[:6]:
        fields.append(e.reshape(u.shape) * rng.uniform(-1, 1) * top)
    mon.close(models.predict(b, crystal, np.array(fields)), models.predict(a, crystal, np.array(fields)), what + ": predictions", rtol=0, atol=atol_pred, **info)


@case(quick=72, thorough=5000)
def routes(mon, rng, index):
    """Direct, pymatgen, OUTCAR and vasprun.xml."""
    import pymatgen.core

    art_class, interp = models.classes()
    crystal = gen.describe(rng, gen.NAMES[(index // 2) % len(gen.NAMES)], max_atoms=8)
    if np.abs(crystal.lattice).max() > 60:
        raise Inconclusive("lattice too long for the file formats")
    art = bool(index % 2)
    atom = int(rng.integers(crystal.n))
    if art or rng.random() < 0.5:
        pool = gen.directions_for(crystal, atom, rng)
        u = models.atom_field(crystal, atom, pool[int(rng.integers(len(pool)))])
    else:
        u = rng.normal(size=(crystal.n, 3)) * (rng.random((crystal.n, 1)) < 0.6)
        if not u.any():
            u[atom] = rng.normal(size=3)
    u = u / np.linalg.norm(u)
    oblique, grey = models.obliqueness(crystal, u)
    if grey:
        raise Inconclusive("nearly parallel or orthogonal images")
    order = 1 if art else int(rng.integers(1, 4))
    response = gen.Response(crystal, rng, degree=1 if art else 2)
    amps, negative = models.amplitudes_for(crystal, u, order, rng, extra=0 if art else int(rng.integers(2)))
    mode = str(rng.choice(["valid"] * 5 + ["duplicate", "points", "image"] + ["surplus"] * art))
    if mode == "duplicate":
        amps = np.append(amps, amps[-1])
    elif mode == "image":
        if not negative:
            mode = "valid"
        else:
            amps = np.append(amps, -amps[0])
    elif mode == "surplus":  # atomic Raman tensors have two amplitudes
        amps = np.append(amps, amps[:1] * float(rng.uniform(0.3, 0.7)))
        mon.event("surplus amplitudes")
    elif mode == "points":
        have = lambda k: (2 * k if negative else k) + (0 if art else 1)
        k = len(amps)
        while k > 0 and have(k) > order:
            k -= 1
        if k == 0:
            mode = "valid"
        else:
            amps = amps[:k]
    fields = [a * u for a in amps]
    pols = np.array([response.alpha(f) for f in fields])
    info = dict(crystal=crystal, displacement=u, amplitudes=amps, order=order, art=art, mode=mode)
    new = lambda: (art_class if art else interp)(crystal.ref(), response.ref.copy())
    # files define the direction by their first structure
    sign = np.sign(amps[0])
    direct = new()
    mag = float(rng.choice([1.0, 1e-3, 420.0]))
    if art:
        call = lambda m: m.add_art(atom, sign * u[atom] * mag, sign * amps, pols.copy())
    else:
        call = lambda m: m.add_dof(sign * u * mag, sign * amps, pols.copy(), order)
    verdict = p09.outcome(call, direct)
    if mode != "valid":
        mon.check(verdict[0] is not None, "invalid specification accepted", **info)
    else:
        mon.check(verdict[0] is None, "valid specification rejected", verdict=verdict, **info)
    top = np.abs(amps).max()
    scale = max(np.abs(pols - response.ref).max(), 1e-9)
    gap = np.diff(np.sort(np.append(amps, 0))).min()
    structures = [pymatgen.core.Structure(crystal.lattice, crystal.numbers, models.moved(crystal, f) + (rng.integers(-1, 2, (crystal.n, 3)) if rng.random() < 0.3 else 0)) for f in fields]
    other = new()
    got = p09.outcome((lambda m: m.add_art_from_pymatgen(structures, pols.copy())) if art else (lambda m: m.add_dof_from_pymatgen(structures, pols.copy(), order)), other)
    mon.check((got[0] is None) == (verdict[0] is None), "pymatgen route decides differently", direct=verdict, pymatgen=got, **info)
    if verdict[0] is None:
        agree(mon, direct, other, crystal, u, top, 1e-7, 1e-6 * scale, "direct and pymatgen", rng, **info)
        mon.event("direct = pymatgen")
    folder = tempfile.mkdtemp(prefix="rnmon_p10_")
    try:
        for fmt in ("outcar", "vasprun.xml"):
            paths = [write(folder, f"{fmt}{i}", crystal, f, p, fmt, rng) for i, (f, p) in enumerate(zip(fields, pols))]
            if len(paths) == 1 and rng.random() < 0.5:
                paths = paths[0]
            other = new()
            got = p09.outcome((lambda m: m.add_art_from_files(paths, fmt)) if art else (lambda m: m.add_dof_from_files(paths, fmt, order)), other)
            mon.check((got[0] is None) == (verdict[0] is None), f"{fmt} route decides differently", direct=verdict, files=got, **info)
            if verdict[0] is None:
                size = np.linalg.norm(crystal.lattice, axis=1).max() * 1e-8 * np.sqrt(3 * crystal.n)
                eps = 1e-6 + scale / gap * size * 20
                agree(mon, direct, other, crystal, u, top, 20 * size / np.abs(amps[0]) + 1e-9, 10 * eps, f"direct and {fmt}", rng, **info)
                mon.event("direct = " + fmt)
    finally:
        shutil.rmtree(folder)
    if verdict[0] is not None:
        mon.event("rejected everywhere")
    mon.nontrivial(crystal.name, crystal.lattice, u, amps, order, mode)
    mon.sample(**info)


@case(quick=40, thorough=4000)
def magnitude(mon, rng, index):
    """The magnitude of a displacement or direction never matters."""
    art_class, interp = models.classes()
    crystal = gen.describe(rng, gen.NAMES[index % len(gen.NAMES)], max_atoms=8)
    art = bool(index % 2)
    atom = int(rng.integers(crystal.n))
    pool = gen.directions_for(crystal, atom, rng)
    u = models.atom_field(crystal, atom, pool[int(rng.integers(len(pool)))])
    if not art and rng.random() < 0.5:
        u = rng.normal(size=u.shape)
        u /= np.linalg.norm(u)
    if models.obliqueness(crystal, u)[1]:
        raise Inconclusive("nearly parallel or orthogonal images")
    response = gen.Response(crystal, rng, degree=1)
    amps, _ = models.amplitudes_for(crystal, u, 1, rng)
    pols = np.array([response.alpha(a * u) for a in amps])
    built = []
    factors = [1.0, 1e-6, 1e-3, 0.37, 7.0, 1e3, float(np.linalg.norm(crystal.lattice[0])), float(np.linalg.norm(crystal.lattice.sum(axis=0)))]
    for factor in factors:
        model = (art_class if art else interp)(crystal.ref(), response.ref.copy())
        if art:
            model.add_art(atom, u[atom] * factor, amps, pols)
        else:
            model.add_dof(u * factor, amps, pols, 1)
        built.append(model)
    for factor, model in zip(factors[1:], built[1:]):
        agree(mon, built[0], model, crystal, u, np.abs(amps).max(), 1e-9, 1e-7 * np.abs(pols).max(), "magnitude of the displacement matters", rng, factor=factor, crystal=crystal, displacement=u, art=art)
        mon.event("magnitudes")
    mon.nontrivial("magnitude", crystal.lattice, u, art)


@case(quick=58, thorough=4000)
def art_is_interpolation(mon, rng, index):
    """ART models are restricted interpolation models."""
    from ramannoodle.exceptions import UserError

    art_class, interp = models.classes()
    crystal = gen.describe(rng, gen.NAMES[index % len(gen.NAMES)], max_atoms=8)
    response = gen.Response(crystal, rng, degree=2)
    taken = []
    limit_dofs = None if index % 2 else int(rng.integers(1, 3 * crystal.n + 1))
    art = models.complete(crystal, response, rng, art=True, record=taken, limit_dofs=limit_dofs)
    twin = interp(crystal.ref(), response.ref.copy())
    orbits = {k: sorted(o) for o in crystal.orbits() for k in o}
    partial = art_class(crystal.ref(), response.ref.copy())
    info = dict(crystal=crystal)

    def report(model):
        """Specification tuples against basis vectors and orbits."""
        rows = model.get_specification_tuples()
        basis = np.array(model.cart_basis_vectors).reshape(-1, crystal.n, 3)
        covered = []
        for parent, equivalents, directions in rows:
            covered.append(sorted({int(parent), *[int(x) for x in equivalents]}))
            mon.check(int(parent) not in [int(x) for x in equivalents], "an atom is listed as equivalent to itself", rows=rows, **info)
            mon.same(covered[-1], orbits[int(parent)], "equivalents of an inequivalent atom", **info)
            want = [b[parent] for b in basis if np.abs(b[parent]).max() > 1e-6]
            mon.check(len(directions) == len(want), "directions specified so far", got=directions, want=want, **info)
            for w in want:
                mon.check(any(np.allclose(w, d, atol=1e-9) for d in directions), "a specified direction is not reported", got=directions, want=want, **info)
            for d in directions:
                mon.close(np.linalg.norm(d), 1.0, "reported directions are unit vectors", rtol=0, atol=1e-6, **info)
        mon.same(sorted(covered), sorted(list(x) for x in {tuple(o) for o in orbits.values()}), "one row per set of equivalent atoms", **info)
        mon.event("specification tuples")
        # the printed summary
        text = re.sub(r"\x1b\[[0-9;]*m", "", repr(model))
        cells = [[c.strip() for c in re.split("[│|]", line)] for line in text.split("\n")]
        cells = [[c for c in row if c] for row in cells]
        shown = {row[0]: row for row in cells if row and row[0].isdigit()}
        mon.same(sorted(shown), sorted(str(int(parent)) for parent, _, _ in rows), "atoms of the printed summary", summary=text, **info)
        for parent, equivalents, directions in rows:
            row = shown[str(int(parent))]
            mon.same(row[-1], str(len(equivalents)), "number of equivalent atoms in the printed summary", summary=text, **info)
            mon.same(row[-2], f"{len(directions)}/3", "number of directions in the printed summary", summary=text, **info)
            printed = [float(x) for x in re.findall(r"[+-]\d*\.?\d*(?:e[+-]?\d+)?", " ".join(row[1:-2]))]
            mon.close(np.array(printed), np.array(directions).ravel(), "directions in the printed summary", rtol=0, atol=2e-5, summary=text, **info)
        mon.event("summaries")

    report(partial)
    for atom, direction, amps, pols in taken:
        u = models.atom_field(crystal, atom, direction)
        twin.add_dof(u, amps, pols, 1, include_ref_polarizability=False)
        partial.add_art(atom, direction, amps, pols)
        report(partial)
    fields = rng.normal(size=(5, crystal.n, 3))
    fields = np.array([f * models.limit(crystal, f, 0.1) for f in fields])
    pos = models.moved(crystal, fields)
    scale = np.abs(art.calc_polarizabilities(pos)).max()
    mon.close(np.array(art.cart_basis_vectors), np.array(twin.cart_basis_vectors), "ART and interpolation bases", rtol=0, atol=1e-9, **info)
    mon.close(art.calc_polarizabilities(pos), twin.calc_polarizabilities(pos), "ART and interpolation predictions", rtol=0, atol=1e-9 * scale, **info)
    mon.check(isinstance(art, interp), "ART models are interpolation models")
    mon.event("art = interpolation")
    for basis_vector in art.cart_basis_vectors:
        mon.check((np.abs(basis_vector).max(axis=1) > 1e-9).sum() == 1, "degrees of freedom move single atoms", vector=basis_vector, **info)
    for spline in art.interpolations:
        mon.check(spline.k == 1 and len(spline.c) == 2, "two amplitudes, first order", **info)
    # unrestricted entry points
    before = models.state(art, pos)
    u = rng.normal(size=(crystal.n, 3))
    a = np.array([0.05, -0.05])
    p = np.array([response.ref, response.ref])
    mon.raises(UserError, "add_dof on an ART model", art.add_dof, u, a, p, 1)
    mon.raises(UserError, "add_dof on an ART model", art.add_dof, u, a, p, 1, False)
    mon.raises(UserError, "add_dof_from_files on an ART model", art.add_dof_from_files, ["/nonexistent"], "outcar", 1)
    mon.raises(UserError, "add_dof_from_pymatgen on an ART model", art.add_dof_from_pymatgen, [], p, 1)
    mon.check(models.state(art, pos) == before, "a refused entry point changed the model", **info)
    mon.event("entry points refused", 4)
    mon.nontrivial("art", crystal.name, crystal.lattice, len(taken))


@case(quick=40, thorough=2500)
def tilted(mon, rng, index):
    """Directions close to, but not along, lattice vectors and Cartesian axes."""
    art_class, interp = models.classes()
    crystal = gen.p1_crystal(rng)
    atom = int(rng.integers(crystal.n))
    axes = np.concatenate([np.eye(3), crystal.lattice / np.linalg.norm(crystal.lattice, axis=1)[:, None]])
    axis = axes[int(rng.integers(6))] * rng.choice([-1, 1])
    tilt = 10.0 ** rng.uniform(-4, -1)
    aside = np.cross(axis, rng.normal(size=3))
    d = axis + tilt * aside / np.linalg.norm(aside)
    d /= np.linalg.norm(d)
    u = models.atom_field(crystal, atom, d)
    response = gen.Response(crystal, rng, degree=1)
    amps, _ = models.amplitudes_for(crystal, u, 1, rng)
    pols = np.array([response.alpha(a * u) for a in amps])
    art = art_class(crystal.ref(), response.ref.copy())
    art.add_art(atom, d * float(rng.choice([1.0, 0.01, 30.0])), amps, pols)
    twin = interp(crystal.ref(), response.ref.copy())
    twin.add_dof(u, amps, pols, 1)
    info = dict(crystal=crystal, displacement=u, tilt=tilt)
    for model in (art, twin):
        basis = models.span(model.cart_basis_vectors, crystal.n)
        mon.check(len(basis) == 1, "one degree of freedom without symmetry", got=len(basis), **info)
        mon.close(basis[0], u.ravel(), "the degree of freedom is along the direction given", rtol=0, atol=1e-9, **info)
    agree(mon, twin, art, crystal, u, np.abs(amps).max(), 1e-9, 1e-7 * np.abs(pols).max(), "ART and interpolation along a tilted direction", rng, **info)
    mon.event("tilted directions")
    mon.nontrivial("tilted", crystal.lattice, d)


@case(quick=30, thorough=2500)
def art_collective(mon, rng, index):
    """ART displacements from files and structures move one atom and no other."""
    import pymatgen.core

    art_class, _ = models.classes()
    crystal = gen.describe(rng, gen.NAMES[index % len(gen.NAMES)], max_atoms=8)
    if crystal.n < 2 or np.abs(crystal.lattice).max() > 60:
        raise Inconclusive("needs a second atom and a lattice the formats can hold")
    response = gen.Response(crystal, rng, degree=1)
    atom = int(rng.integers(crystal.n))
    pool = gen.directions_for(crystal, atom, rng)
    d = pool[int(rng.integers(len(pool)))]
    u = models.atom_field(crystal, atom, d / np.linalg.norm(d))
    if any(models.obliqueness(crystal, u)):
        raise Inconclusive("oblique images")
    amps, _ = models.amplitudes_for(crystal, u, 1, rng)
    rest = [i for i in range(crystal.n) if i != atom]
    kinds = ["one other", "along", "translation"] + (["cancelling", "cancelling", "everyone"] if len(rest) > 1 else [])
    kind = str(rng.choice(kinds))
    v = np.zeros_like(u)
    picked = [int(i) for i in rng.permutation(rest)]
    if kind == "one other":
        v[picked[0]] = rng.normal(size=3)
    elif kind == "along":
        v[picked[0]] = u[atom] * rng.choice([-1, 1])
    elif kind == "translation":
        v[rest] = u[atom]
    elif kind == "cancelling":
        v[picked[0]] = rng.normal(size=3)
        v[picked[1]] = -v[picked[0]]
    else:
        v[rest] = rng.normal(size=(len(rest), 3))
        v[rest] -= v[rest].mean(axis=0)
    size = 1.0 if kind == "translation" else float(rng.choice([0.9, 0.3, 0.05]))
    v = v / np.linalg.norm(v, axis=1).max() * size
    fields = [a * (u + v) for a in amps]
    if np.abs(fields[0] - amps[0] * u).max() < 1e-3 or any(models.limit(crystal, f, 0.45) < 1 for f in fields):
        raise Inconclusive("too small or too large")
    pols = np.array([response.alpha(f) for f in fields])
    info = dict(crystal=crystal, kind=kind, field=fields[0], atom=atom)
    pmg = lambda f: pymatgen.core.Structure(crystal.lattice, crystal.numbers, models.moved(crystal, f))
    folder = tempfile.mkdtemp(prefix="rnmon_p10_")
    try:
        for first in (True, False):
            # collective throughout, or only a later structure is
            used = fields if first or len(fields) < 2 else [amps[0] * u] + fields[1:]
            for route in ("pymatgen", "outcar", "vasprun.xml"):
                model = art_class(crystal.ref(), response.ref.copy())
                before = models.state(model, None)
                if route == "pymatgen":
                    got = p09.outcome(lambda m: m.add_art_from_pymatgen([pmg(f) for f in used], pols.copy()), model)
                else:
                    paths = [write(folder, f"{first}{route}{i}", crystal, f, p, route, rng) for i, (f, p) in enumerate(zip(used, pols))]
                    got = p09.outcome(lambda m: m.add_art_from_files(paths, route), model)
                mon.check(got[0] is not None, f"ART from {route} accepted a displacement of several atoms", **info)
                mon.check(models.state(model, None) == before, "refused displacement changed the model", **info)
                mon.event("collective displacement refused")
    finally:
        shutil.rmtree(folder)
    mon.nontrivial("collective", crystal.name, crystal.lattice, kind, fields[0])
