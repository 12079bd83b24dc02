"""P26: Raman spectra are physically invariant end to end."""

import os
import shutil
import tempfile

import numpy as np

from rnmon import elements, gen, genfiles, models
from rnmon.core import Inconclusive, case

RULE = "distinct (crystal, re-description) pairs whose spectra were compared"
ASSUMPTIONS = [
    "polarizabilities are intensive (per cell volume): the response of one atom in an m-fold cell is 1/m of that in the original cell",
    "MD lines of small harmonic motion are compared on commensurate runs",
]
REQUIRED_EVENTS = [
    "rotation", "shift", "permutation", "recell", "supercell", "left-handed", "sign", "degenerate mixing", "choices",
    "partial tensors", "MD line", "MD ratio", "pipeline",
]


class Described:
    """A crystal in another description with the physics carried along."""

    def __init__(self, crystal, response):
        self.crystal = crystal
        self.ref = response.ref
        self.lin = response.lin

    def alpha(self, u):
        return self.ref + np.einsum("kd,kdij->ij", u, self.lin)

    def apply(self, kind, rng, vectors):
        """Returns the new description and the mode vectors in it."""
        new = object.__new__(Described)
        c = self.crystal
        new.ref, new.lin = self.ref, self.lin
        if kind in ("rotation", "mirror"):
            r = gen.rotation(rng, improper=kind == "mirror")
            new.crystal = c.rotated(r)
            new.ref = r.T @ self.ref @ r
            new.lin = np.einsum("kdij,da,ib,jc->kabc", self.lin, r, r, r)
            return new, vectors @ r
        if kind == "shift":
            new.crystal = c.shifted(rng.random(3))
            return new, vectors
        if kind == "images":
            new.crystal = gen.Crystal(c.name + "+images", c.numbers, c.lattice, c.positions + rng.integers(-2, 3, c.positions.shape))
            return new, vectors
        if kind == "permutation":
            order = rng.permutation(c.n)
            new.crystal = c.permuted(order)
            new.lin = self.lin[order]
            return new, vectors[:, order]
        if kind == "left-handed":
            m = np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1]])
        elif kind == "recell":
            m = gen.unimodular(rng, int(rng.integers(1, 3)))
        else:
            m = gen.supercell_matrix(rng) if c.n <= 6 else np.eye(3, dtype=int)
            if rng.random() < 0.4:
                m = gen.unimodular(rng, 1) @ m
        new.crystal = c.recell(m)
        volume = abs(round(np.linalg.det(m)))
        new.lin = self.lin[new.crystal.origin] / volume
        return new, vectors[:, new.crystal.origin]


def spectrum(mon, d, vectors, nu, rng, art=True, collective=False):
    from ramannoodle.dynamics import Phonons

    model = models.complete(d.crystal, d, rng, art=art, collective=collective and not art)
    phonons = Phonons(d.crystal.positions.copy(), nu.copy(), vectors @ np.linalg.inv(d.crystal.lattice))
    return model, phonons.get_raman_spectrum(model)


def options(rng):
    if rng.random() < 0.5:
        return {}
    return dict(laser_correction=bool(rng.integers(2)), laser_wavelength=float(rng.uniform(300, 900)), bose_einstein_correction=bool(rng.integers(2)), temperature=float(rng.uniform(50, 900)))


KINDS = ["rotation", "shift", "permutation", "recell", "supercell", "left-handed", "images", "mirror"]


@case(quick=58, thorough=5000)
def descriptions(mon, rng, index):
    """Arbitrary re-descriptions of the same crystal and phonons."""
    base = gen.BASE[gen.NAMES[index % len(gen.NAMES)]]
    if rng.random() < 0.3:
        base = base.rotated(gen.rotation(rng))
    response = gen.Response(base, rng, degree=1)
    d = Described(base, response)
    m = int(rng.integers(2, 6))
    nu = rng.uniform(50, 1000, m)
    vectors = rng.normal(size=(m, base.n, 3))
    opts = options(rng)
    model, first = spectrum(mon, d, vectors, nu, rng)
    w0, i0 = first.measure(**opts)
    scale = max(np.abs(i0).max(), 1e-7)  # a response may vanish by symmetry
    applied = []
    e, v = d, vectors
    steps = [KINDS[(index + k) % len(KINDS)] for k in range(int(rng.integers(1, 4)))]
    for kind in steps:
        if kind == "supercell" and e.crystal.n > 6:
            continue
        e, v = e.apply(kind, rng, v)
        applied.append(kind)
    if not applied:
        raise Inconclusive("too many atoms for a supercell")
    _, second = spectrum(mon, e, v, nu, rng, art=bool(rng.integers(3)), collective=bool(rng.integers(2)))
    w1, i1 = second.measure(**opts)
    info = dict(crystal=base, steps=applied, described=e.crystal, options=opts)
    mon.check(np.array_equal(w0, w1), "wavenumbers depend on the description", **info)
    mon.close(i1, i0, "intensities depend on the description", rtol=1e-4, atol=1e-5 * scale, **info)
    for kind in applied:
        mon.event(kind)
        mon.nontrivial(base.name, kind, e.crystal.lattice)
    mon.sample(**info, intensities=i0)


@case(quick=29, thorough=2500)
def choices(mon, rng, index):
    """Representatives, directions, signs, degenerate mixing, partial tensors."""
    from ramannoodle.dynamics import Phonons

    base = gen.describe(rng, gen.NAMES[index % len(gen.NAMES)], max_atoms=8)
    response = gen.Response(base, rng, degree=1)
    d = Described(base, response)
    m = int(rng.integers(3, 7))
    nu = rng.uniform(50, 1000, m)
    nu[1] = nu[0]
    vectors = rng.normal(size=(m, base.n, 3))
    model, first = spectrum(mon, d, vectors, nu, rng)
    _, i0 = first.measure()
    t0 = first.raman_tensors
    scale = max(np.abs(i0).max(), 1e-7)  # a response may vanish by symmetry
    info = dict(crystal=base)
    for art in (True, False):
        _, other = spectrum(mon, d, vectors, nu, rng, art=art, collective=not art)
        mon.close(other.raman_tensors, t0, "tensors depend on the representatives or directions chosen", rtol=0, atol=1e-5 * max(np.abs(t0).max(), 1e-4), art=art, **info)
        mon.event("choices")
    # sign
    inv = np.linalg.inv(base.lattice)
    signs = rng.choice([-1.0, 1.0], m)
    flipped = Phonons(base.positions, nu, signs[:, None, None] * vectors @ inv).get_raman_spectrum(model)
    mon.close(flipped.measure()[1], i0, "sign of the phonon vectors matters", rtol=1e-7, atol=1e-8 * scale, **info)
    mon.event("sign")
    # degenerate pair
    angle = rng.uniform(0, 6.3)
    mix = np.array([[np.cos(angle), np.sin(angle)], [-np.sin(angle), np.cos(angle)]])
    mixed = vectors.copy()
    mixed[:2] = np.einsum("ab,bkd->akd", mix, vectors[:2])
    i2 = Phonons(base.positions, nu, mixed @ inv).get_raman_spectrum(model).measure()[1]
    mon.close(i2[:2].sum(), i0[:2].sum(), "mixing degenerate phonons changes their summed intensity", rtol=1e-6, atol=1e-7 * scale, **info)
    mon.close(i2[2:], i0[2:], "mixing degenerate phonons changes others", rtol=1e-7, atol=1e-8 * scale, **info)
    mon.event("degenerate mixing")
    # partial tensors
    symbols = sorted({elements.SYMBOL[z] for z in base.numbers})
    j = len(model.cart_basis_vectors)
    groups = [model.get_dof_indexes(s) for s in symbols] if rng.random() < 0.5 else [model.get_dof_indexes(k) for k in range(base.n)]
    total = np.zeros_like(t0)
    for group in groups:
        rest = [k for k in range(j) if k not in group]
        total += Phonons(base.positions, nu, vectors @ inv).get_raman_spectrum(model.get_masked_model(rest)).raman_tensors
    mon.close(total, t0, "partial Raman tensors do not add up", rtol=0, atol=1e-6 * max(np.abs(t0).max(), 1e-4), **info)
    mon.event("partial tensors")
    mon.nontrivial("choices", base.name, base.lattice, nu)


@case(quick=24, thorough=1500)
def dynamics(mon, rng, index):
    """Small harmonic MD motion against the phonon route."""
    from ramannoodle.dynamics import Phonons, Trajectory

    base = gen.describe(rng, gen.NAMES[(5 * index) % len(gen.NAMES)], max_atoms=6)
    response = gen.Response(base, rng, degree=1)
    if np.abs(response.lin).max() < 1e-9:
        raise Inconclusive("no first-order response by symmetry")
    d = Described(base, response)
    vectors = rng.normal(size=(2, base.n, 3))
    vectors = np.array([v * models.limit_all(base, v, 0.02) for v in vectors])
    model, phonon = spectrum(mon, d, vectors, np.array([100.0, 200.0]), rng)
    t = phonon.raman_tensors
    i = phonon.measure()[1]
    inv = np.linalg.inv(base.lattice)
    s = int(rng.choice([128, 256, 400]))
    dt = float(rng.choice([0.5, 1.0, 2.0]))
    cycles = int(rng.integers(8, s // 3))
    step = 2 * np.pi * cycles / (s - 1)  # commensurate with the differenced series
    phase = rng.uniform(0, 2 * np.pi)
    swing = np.cos(step * np.arange(s) + phase)
    nu = cycles / ((s - 1) * dt) * 33356.40951981521
    lines, peaks = [], []
    for k in range(2):
        ts = base.positions + swing[:, None, None] * (vectors[k] @ inv)
        md = Trajectory(ts, dt).get_raman_spectrum(model)
        alpha = md.polarizability_ts
        # the same relative tensor as the phonon route
        slope = np.einsum("s,sij->ij", swing, alpha - alpha.mean(axis=0)) / np.sum(swing * (swing - swing.mean()))
        scale = np.abs(t[k]).max()
        c = np.sum(slope * t[k]) / np.sum(t[k] * t[k]) if scale > 0 else 0
        mon.close(slope, c * t[k], "MD and phonon tensors are not proportional", rtol=0, atol=1e-5 * abs(c) * scale + 1e-12, crystal=base)
        lines.append(c)
        w, y = md.measure()
        if scale > 1e-9:
            top = int(np.argmax(y))
            mon.check(abs(w[top] - nu) < 1.01 * (w[1] - w[0]), "line of the MD spectrum is not at the phonon's wavenumber", got=w[top], want=nu, crystal=base)
            mon.event("MD line")
        peaks.append(y)
    mon.close(lines[1], lines[0], "MD and phonon tensors relate by different constants", rtol=1e-5, atol=0, crystal=base)
    scale = max(np.abs(peaks[0]).max(), np.abs(peaks[1]).max())
    mon.close(peaks[0] * i[1], peaks[1] * i[0], "MD intensities are not in the ratio of the phonon intensities", rtol=1e-4, atol=1e-5 * scale * np.abs(i).max(), crystal=base, intensities=i)
    mon.event("MD ratio")
    mon.nontrivial("md", base.name, base.lattice, cycles)


@case(quick=12, thorough=400)
def pipeline(mon, rng, index):
    """Displaced structures written, 'calculated', read back, spectrum measured and convolved."""
    from ramannoodle.dynamics import Phonons
    from ramannoodle.io import generic
    from ramannoodle.spectrum.utils import convolve_spectrum
    from ramannoodle.structure import write_displaced_structures

    name = ["p1_three", "p-1", "p2m", "tet_polar", "rutile", "hcp", "wurtzite", "p3", "ortho", "p21c", "rhombo_polar", "p4"][index % 12]
    base = gen.BASE[name]
    base = base.permuted(np.argsort(base.numbers, kind="stable"))
    response = gen.Response(base, rng, degree=1)
    fmt = ["outcar", "vasprun.xml"][int(rng.integers(2))]
    render = (lambda c: genfiles.outcar(c, rng, "A")) if fmt == "outcar" else (lambda c: genfiles.vasprun(c, rng))
    symbols = [elements.SYMBOL[z] for z in base.numbers]
    folder = tempfile.mkdtemp(prefix="rnmon_p26_")

    def calculation(pos):
        c = genfiles.Calc(symbols, [1] * base.n, base.lattice, pos - np.floor(pos))
        return genfiles.add_polarizability(c, rng)

    try:
        c = calculation(base.positions)
        c.polarizability = response.ref
        path = os.path.join(folder, "ref")
        genfiles.save(path, render(c))
        ref = generic.read_ref_structure(path, fmt)
        _, ref_pol = generic.read_positions_and_polarizability(path, fmt)
        art_class, _ = models.classes()
        model = art_class(ref, ref_pol)
        inv = np.linalg.inv(base.lattice)
        count = 0
        for attempt in range(200):
            rows = [r for r in model.get_specification_tuples() if len(r[2]) < 3]
            if not rows:
                break
            row = rows[int(rng.integers(len(rows)))]
            atom = int(row[0])
            own = np.array(row[2]).reshape(-1, 3)
            pool = gen.directions_for(base, atom, rng)
            d = pool[int(rng.integers(len(pool)))]
            d = d - own.T @ (own @ d)
            if np.linalg.norm(d) < 0.2:
                continue
            u = models.atom_field(base, atom, d / np.linalg.norm(d))
            amps = [0.1] if gen.has_negative(base, u) else [0.1, -0.1]
            patterns = [os.path.join(folder, f"{count}_{k}") for k in range(len(amps))]
            write_displaced_structures(ref, u, np.array(amps), patterns, "poscar")
            outputs = []
            for k, p in enumerate(patterns):
                pos = generic.read_positions(p, "poscar")
                moved = (gen.minimg(pos - base.positions)) @ base.lattice
                mon.close(moved, amps[k] * u, "written structure carries the requested displacement", rtol=0, atol=1e-7)
                calc = calculation(pos)
                calc.polarizability = response.alpha(moved)
                genfiles.save(p + ".out", render(calc))
                outputs.append(p + ".out")
            count += 1
            try:
                model.add_art_from_files(outputs, fmt)
            except models.refusals():
                continue
        else:
            raise Inconclusive("no complete set of directions found")
        calc = genfiles.Calc(symbols, [1] * base.n, base.lattice, base.positions)
        genfiles.add_phonons(calc, rng)
        genfiles.save(os.path.join(folder, "phonons"), (lambda c: genfiles.outcar(c, rng, "A"))(calc))
        phonons = generic.read_phonons(os.path.join(folder, "phonons"), "outcar")
        spec = phonons.get_raman_spectrum(model)
        w, i = spec.measure()
        # ground truth straight from the response
        modes = phonons.displacements @ base.lattice
        t = np.einsum("mkd,kdij->mij", modes, response.lin)
        a = np.trace(t, axis1=1, axis2=2) / 3
        dev = t - a[:, None, None] * np.eye(3)
        want = 45 * a**2 + 7 * 1.5 * np.sum(dev * dev, axis=(1, 2))
        ratio = np.sum(i * want) / np.sum(want * want)
        mon.close(i, ratio * want, "end-to-end intensities", rtol=1e-3, atol=1e-3 * ratio * want.max(), crystal=base, fmt=fmt)
        mon.check(np.array_equal(w, phonons.wavenumbers), "end-to-end wavenumbers")
        ww, ii = convolve_spectrum(w, i, "gaussian", width=5.0, out_wavenumbers=np.linspace(w.min() - 60, w.max() + 60, 6000))
        mon.close(np.sum((ii[1:] + ii[:-1]) / 2 * np.diff(ww)), i.sum(), "convolution keeps the total intensity", rtol=1e-4, atol=0)
        mon.event("pipeline")
        mon.nontrivial("pipeline", name, fmt)
    finally:
        shutil.rmtree(folder)
