"""P11: phonon Raman tensors are directional derivatives of the polarizability."""

import numpy as np

from rnmon import gen, models
from rnmon.core import case

RULE = "distinct (model, phonon set) pairs whose Raman tensors were compared with the directional derivatives"
ASSUMPTIONS = [
    "the common constant is taken from the first non-zero tensor of the run and must hold for all others",
    "cubic and higher terms are kept small enough for the step not to matter (the step itself is not specified)",
]
REQUIRED_EVENTS = ["analytic models", "quadratic models", "interpolation models", "kinked models", "masked models", "vanishing", "linearity", "incompatible rejected", "moved references", "sizes apart"]


def analytic_model(lin, quad, cubic, ref_positions, lattice, ref):
    """Polarizability model with an analytic response (public abstract interface)."""
    from ramannoodle.abstract import PolarizabilityModel

    class Analytic(PolarizabilityModel):
        seen = 0

        def calc_polarizabilities(self, positions_batch):
            if positions_batch.shape[1:] != ref_positions.shape:
                raise ValueError("wrong shape")
            self.seen += len(positions_batch)
            d = positions_batch - ref_positions
            u = (d - np.rint(d)) @ lattice
            out = ref + np.einsum("skd,kdij->sij", u, lin)
            amp = np.einsum("skd,mkd->sm", u, quad[0])
            out = out + np.einsum("sm,mij->sij", amp**2, quad[1])
            if cubic:
                out = out + cubic * np.einsum("sm,mij->sij", amp**3, quad[1])
            return out

    return Analytic()


def constant(mon, got, want, what, tol=1e-6, **info):
    """got = c * want with the run's common constant c."""
    scale = np.abs(want).max()
    if "constant" not in mon.facts:
        k = np.unravel_index(np.argmax(np.abs(want)), want.shape)
        value = float(got[k] / want[k])
        mon.check(np.isfinite(value) and abs(value) > 1e-6, "Raman tensors carry a finite non-zero constant", constant=value)
        mon.facts["constant"] = value
    mon.close(got, mon.facts["constant"] * want, what, rtol=0, atol=tol * max(scale, 1e-12), constant=mon.facts["constant"], **info)


def phonon_set(rng, crystal, m, sizes=(0.2, 1.0, 20.0)):
    """Cartesian mode vectors of all sizes and unsorted, partly repeated or imaginary wavenumbers."""
    vectors = rng.normal(size=(m, crystal.n, 3))
    vectors[rng.random((m, crystal.n)) < 0.2] = 0
    for k in range(m):
        if not vectors[k].any():
            vectors[k, 0, 0] = 1
        vectors[k] *= models.limit(crystal, vectors[k], float(rng.choice(sizes)))
    nu = rng.uniform(-200, 1200, m)
    if m > 2 and rng.random() < 0.5:
        nu[1] = nu[0]
    return vectors, nu


def tensors_of(mon, crystal, model, vectors, nu, base=None):
    from ramannoodle.dynamics import Phonons

    base = crystal.positions if base is None else base
    phonons = Phonons(base.copy(), nu.copy(), vectors @ np.linalg.inv(crystal.lattice))
    spectrum = phonons.get_raman_spectrum(model)
    mon.check(np.array_equal(spectrum.phonon_wavenumbers, nu), "wavenumbers and their order are preserved", got=spectrum.phonon_wavenumbers, want=nu)
    t = spectrum.raman_tensors
    mon.check(t.shape == (len(nu), 3, 3), "one tensor per phonon", got=t.shape)
    return t


@case(quick=90, thorough=8000)
def analytic(mon, rng, index):
    """Models with known analytic responses."""
    crystal = gen.p1_crystal(rng) if index % 3 else gen.describe(rng, max_atoms=8)
    n = crystal.n
    lin = rng.normal(size=(n, 3, 3, 3))
    lin = (lin + lin.transpose(0, 1, 3, 2)) / 2
    if index % 7 == 0:
        lin = rng.normal(size=(n, 3, 3, 3))  # not even symmetric
    kind = ["linear", "quadratic", "cubic"][index % 3]
    modes = rng.normal(size=(3, n, 3))
    mats = np.array([gen.sym_tensor(rng) for _ in range(3)]) * (0 if kind == "linear" else 2.0)
    ref = gen.sym_tensor(rng) + 4 * np.eye(3)
    model = analytic_model(lin, (modes, mats), 1e-3 if kind == "cubic" else 0, crystal.positions, crystal.lattice, ref)
    m = int(rng.choice([1, 2, 3, 3 * n, 60]))
    vectors, nu = phonon_set(rng, crystal, m, (0.2, 0.5) if kind == "cubic" else (0.2, 1.0, 20.0))
    got = tensors_of(mon, crystal, model, vectors, nu)
    want = np.einsum("mkd,kdij->mij", vectors, lin)
    tolerance = np.full(m, 1e-4 if kind == "cubic" else 1e-7)
    if kind != "cubic" and m > 1 and index % 2:
        # phonons of very different sizes in one set
        for k in range(0, m, 2):
            vectors[k] *= 1e-4
            tolerance[k] = 2e-6
        got = tensors_of(mon, crystal, model, vectors, nu)
        want = np.einsum("mkd,kdij->mij", vectors, lin)
        mon.event("sizes apart")
    for k in range(m):
        constant(mon, got[k : k + 1], want[k : k + 1], "Raman tensor is the directional derivative at the reference", tol=tolerance[k], crystal=crystal, mode=vectors[k], kind=kind)
    mon.event("analytic models")
    mon.event("quadratic models" if kind == "quadratic" else kind)
    mon.check(model.seen >= 2 * m, "the model was evaluated for every phonon")
    mon.nontrivial("analytic", crystal.lattice, nu, kind)
    mon.sample(crystal=crystal, kind=kind, phonons=m, tensor=got[0])
    # vanishing displacement
    zero = tensors_of(mon, crystal, model, np.zeros((1, n, 3)), nu[:1])
    mon.close(zero, np.zeros((1, 3, 3)), "no displacement, no tensor", rtol=0, atol=1e-9)
    # reference given in other cells
    base = crystal.positions + rng.integers(-2, 3, crystal.positions.shape)
    again = tensors_of(mon, crystal, model, vectors, nu, base)
    mon.close(again, got, "whole-cell moves of the reference positions", rtol=0, atol=1e-6 * np.abs(got).max())
    mon.event("moved references")
    # order of phonons
    order = rng.permutation(m)
    mon.close(tensors_of(mon, crystal, model, vectors[order], nu[order]), got[order], "tensors do not depend on the other phonons", rtol=0, atol=1e-12 * np.abs(got).max())


@case(quick=50, thorough=4000)
def built(mon, rng, index):
    """ART and interpolation models, masked or not."""
    crystal = gen.describe(rng, gen.NAMES[index % len(gen.NAMES)], max_atoms=8)
    n = crystal.n
    art = bool(index % 2)
    response = gen.Response(crystal, rng, degree=1)
    limit_dofs = None if rng.random() < 0.5 else int(rng.integers(1, 3 * n + 1))
    model = models.complete(crystal, response, rng, art=art, limit_dofs=limit_dofs, collective=not art and bool(index % 4))
    j = len(model.cart_basis_vectors)
    masked = False
    if rng.random() < 0.5:
        model = model.get_masked_model([int(x) for x in rng.permutation(j)[: int(rng.integers(1, j + 1))]])
        masked = True
    m = int(rng.choice([1, 3, 3 * n]))
    vectors, nu = phonon_set(rng, crystal, m)
    basis = models.span(model.cart_basis_vectors, n)
    active = basis[~model.mask]
    slopes = np.array([response.linear(e.reshape(n, 3)) for e in active]).reshape(-1, 3, 3)
    want = np.einsum("me,eij->mij", vectors.reshape(m, -1) @ active.T, slopes)
    got = tensors_of(mon, crystal, model, vectors, nu)
    # a response may vanish by symmetry: then only rounding is left
    strength = max(np.abs(response.lin).max(), 1e-4)
    scale = np.array([np.linalg.norm(v) + 1e-3 for v in vectors]) * strength
    if "constant" not in mon.facts:
        return
    c = mon.facts["constant"]
    for k in range(m):
        mon.close(got[k], c * want[k], "Raman tensor of a linear model", rtol=0, atol=1e-5 * c * scale[k], crystal=crystal, mode=vectors[k], art=art, mask=model.mask)
    mon.event("interpolation models")
    if masked:
        mon.event("masked models")
    mon.nontrivial("built", crystal.name, crystal.lattice, nu)
    # linearity in the displacement
    a, b = rng.normal(size=2)
    v, w = vectors[0], vectors[-1]
    mixed = a * v + b * w
    size = models.limit(crystal, mixed, 1.0)
    combo = tensors_of(mon, crystal, model, (mixed * min(1, size))[None], nu[:1])[0]
    mon.close(combo, min(1, size) * (a * got[0] + b * got[-1]), "linear in the displacement", rtol=0, atol=1e-5 * c * (scale[0] + scale[-1]) * (abs(a) + abs(b)), crystal=crystal)
    mon.event("linearity")
    # no response, no tensor
    if len(active) < 3 * n:
        out = rng.normal(size=3 * n)
        out -= active.T @ (active @ out)
        out = out.reshape(n, 3)
        out *= models.limit(crystal, out, 0.5)
        quiet = tensors_of(mon, crystal, model, out[None], nu[:1])[0]
        mon.close(quiet, np.zeros((3, 3)), "a mode the model does not respond to has a tensor", rtol=0, atol=1e-5 * (np.linalg.norm(out) + 1e-3) * strength, crystal=crystal, mode=out)
        mon.event("vanishing")
    # the model's own central difference
    h = 0.005 / np.abs(v @ np.linalg.inv(crystal.lattice)).max()
    own = (models.predict(model, crystal, h * v) - models.predict(model, crystal, -h * v)) / (2 * h)
    mon.close(got[0], c * own, "tensor and the model's own central difference", rtol=0, atol=1e-5 * c * scale[0], crystal=crystal)


@case(quick=40, thorough=3000)
def kinked(mon, rng, index):
    """Piecewise-linear models: the central difference averages the two slopes."""
    _, interp = models.classes()
    crystal = gen.p1_crystal(rng)
    n = crystal.n
    ref = gen.sym_tensor(rng) + 4 * np.eye(3)
    model = interp(crystal.ref(), ref)
    basis = np.linalg.qr(rng.normal(size=(3 * n, 3 * n)))[0].T[: int(rng.integers(1, 3 * n + 1))]
    slopes = []
    for row in basis:
        a = rng.uniform(0.1, 0.2, 2)
        up, down = gen.sym_tensor(rng), gen.sym_tensor(rng)
        model.add_dof(row.reshape(n, 3), np.array([a[0], -a[1]]), ref + np.array([a[0] * up, -a[1] * down]), 1)
        slopes.append((up + down) / 2)
    v = rng.normal(size=(2, n, 3))
    v = np.array([x * models.limit(crystal, x, 1.0) for x in v])
    got = tensors_of(mon, crystal, model, v, np.array([5.0, -3.0]))
    want = np.einsum("me,eij->mij", v.reshape(2, -1) @ basis.T, np.array(slopes))
    constant(mon, got, want, "central difference across a kink", tol=1e-5, crystal=crystal)
    mon.event("kinked models")
    mon.nontrivial("kinked", crystal.lattice, len(basis))


@case(quick=30, thorough=600)
def incompatible(mon, rng, index):
    """Models and phonons of different structures."""
    from ramannoodle.dynamics import Phonons

    crystal = gen.describe(rng, gen.NAMES[index % len(gen.NAMES)], max_atoms=8)
    response = gen.Response(crystal, rng, degree=1)
    model = models.complete(crystal, response, rng, art=bool(index % 2), limit_dofs=1)
    before = models.state(model)
    for n in {max(1, crystal.n - 1), crystal.n + 1, 2 * crystal.n} - {crystal.n}:
        m = int(rng.integers(1, 4))
        phonons = Phonons(rng.random((n, 3)), rng.uniform(0, 100, m), rng.normal(size=(m, n, 3)))
        mon.raises(ValueError, "incompatible phonons and model", phonons.get_raman_spectrum, model)
        mon.event("incompatible rejected")
        mon.nontrivial("incompatible", crystal.name, n)
    mon.check(models.state(model) == before, "a refused spectrum changed the model")
    for args in (
        (rng.random((3, 2)), np.zeros(2), np.zeros((2, 3, 3))),
        (rng.random((3, 3)), np.zeros(2), np.zeros((3, 3, 3))),
        (rng.random((3, 3)), np.zeros(2), np.zeros((2, 2, 3))),
        (rng.random((3, 3)), np.zeros((2, 1)), np.zeros((2, 3, 3))),
        (rng.random((3, 3)), np.zeros(2), np.zeros((2, 3))),
    ):
        mon.raises((ValueError, TypeError), "malformed phonons", Phonons, *args)
