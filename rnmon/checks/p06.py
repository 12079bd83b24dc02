"""P06: symmetry-completed models reproduce a symmetric response."""

import numpy as np

from rnmon import gen, models
from rnmon.core import Inconclusive, case

RULE = "distinct (crystal description, specified displacements) with more than one symmetry operation, model compared with the true response"
ASSUMPTIONS = [
    "ground truth: polynomial responses averaged over a brute-force symmetry group (no spglib)",
    "displacements with nearly parallel or nearly orthogonal images are not used",
    "for non-linear responses equivariance is decided where the degrees of freedom are permuted by the operations (no oblique images)",
]
REQUIRED_EVENTS = ["stretches", "images", "equivariance", "complete models", "linear response", "nonlinear equivariance", "art models", "interpolation models"]


def redescribe(rng, index, max_atoms=10):
    name = gen.NAMES[(index // 2) % len(gen.NAMES)] if index % 2 == 0 else None
    crystal = gen.describe(rng, name, max_atoms=max_atoms)
    if rng.random() < 0.3:
        crystal = crystal.recell([[0, 1, 0], [1, 0, 0], [0, 0, 1]])  # left-handed
    return crystal


@case(quick=110, thorough=8000)
def one_displacement(mon, rng, index):
    """Supplied displacement and all its symmetry images."""
    art_class, interp = models.classes()
    crystal = redescribe(rng, index)
    art = index % 3 == 0
    k = int(rng.integers(crystal.n))
    if art or rng.random() < 0.6:
        pool = gen.directions_for(crystal, k, rng)
        u = models.atom_field(crystal, k, pool[int(rng.integers(len(pool)))])
    elif crystal.n > 1 and rng.random() < 0.6:
        # stretches: components add up to nothing
        pool = gen.directions_for(crystal, k, rng)
        d = pool[int(rng.integers(len(pool)))]
        alike = [j for j in range(crystal.n) if j != k and crystal.numbers[j] == crystal.numbers[k]] or [(k + 1) % crystal.n]
        u = models.atom_field(crystal, k, d) - models.atom_field(crystal, alike[int(rng.integers(len(alike)))], d)
        u /= np.linalg.norm(u)
        mon.event("stretches")
    else:
        u = rng.normal(size=(crystal.n, 3)) * (rng.random((crystal.n, 1)) < 0.5)
        if not u.any():
            u = rng.normal(size=(crystal.n, 3))
        u /= np.linalg.norm(u)
    imgs = gen.images(crystal, u)
    oblique, grey = models.obliqueness(crystal, u, imgs)
    if grey:
        raise Inconclusive("nearly parallel or orthogonal images")
    order = 1 if art else 1 + (index // 3) % 3
    response = gen.Response(crystal, rng, degree=order if not art else 1)
    amps, negative = models.amplitudes_for(crystal, u, order, rng, extra=0 if art else int(rng.integers(2)))
    pols = np.array([response.alpha(a * u) for a in amps])
    if art:
        model = art_class(crystal.ref(), response.ref.copy())
        model.add_art(k, u[k] * 3.0, amps.copy(), pols.copy())
        mon.event("art models")
    else:
        model = interp(crystal.ref(), response.ref.copy())
        model.add_dof(u * 3.0, amps.copy(), pols.copy(), order, bool(rng.integers(2)))
        mon.event("interpolation models")
    info = dict(crystal=crystal, displacement=u, amplitudes=amps, order=order, art=art)
    basis = models.span(model.cart_basis_vectors, crystal.n)
    scale = max(np.abs(pols - response.ref).max(), 1e-4)
    ops = crystal.ops()
    found = np.zeros(len(basis), dtype=bool)
    for op in ops:
        v = gen.act(op, u)
        cos = basis @ v.ravel()
        hit = np.abs(cos) > 1 - 1e-7
        found |= hit
        if not oblique:
            mon.check(hit.sum() == 1, "an image of the supplied displacement is not a degree of freedom", image=v, cosines=cos, **info)
        if not hit.any():
            continue
        for a in amps:
            want = gen.act_tensor(op, response.alpha(a * u))
            mon.close(models.predict(model, crystal, a * v), want, "transformed polarizability at a symmetry image of a supplied displacement", rtol=0, atol=1e-6 * scale, image=v, amplitude=a, **info)
        mon.event("images")
    mon.check(found.all(), "a degree of freedom is not an image of the supplied displacement", basis=basis, **info)
    if not oblique:
        u_test = rng.normal(size=u.shape)
        u_test *= models.limit_all(crystal, u_test, 0.08)
        base = models.predict(model, crystal, u_test) 
        for op in ops if len(ops) <= 12 or mon.thorough else [ops[i] for i in rng.permutation(len(ops))[:12]]:
            got = models.predict(model, crystal, gen.act(op, u_test))
            # outside the sampled range splines extrapolate, still equivariantly
            size = max(scale, np.abs(base - response.ref).max())
            mon.close(got, gen.act_tensor(op, base), "model is equivariant", rtol=0, atol=1e-5 * size, test=u_test, **info)
            mon.event("equivariance" if order == 1 else "nonlinear equivariance")
    if len(ops) > 1:
        mon.nontrivial(crystal.name, crystal.lattice, u, order)
    mon.sample(crystal=crystal, ops=len(ops), images=len(imgs), oblique=oblique, dofs=len(basis))


@case(quick=58, thorough=4000)
def complete(mon, rng, index):
    """Complete models equal the true linear response in every direction."""
    crystal = redescribe(rng, index, max_atoms=8)
    art = index % 3 != 2
    response = gen.Response(crystal, rng, degree=1)
    model = models.complete(crystal, response, rng, art=art, order=1, collective=not art and index % 2 == 0)
    info = dict(crystal=crystal, art=art)
    basis = models.span(model.cart_basis_vectors, crystal.n)
    mon.close(basis @ basis.T, np.eye(3 * crystal.n), "degrees of freedom orthonormal and complete", rtol=0, atol=1e-5, **info)
    mon.event("complete models")
    for _ in range(4):
        u = rng.normal(size=(crystal.n, 3))
        u *= models.limit_all(crystal, u, 0.3)
        want = response.alpha(u)
        scale = max(np.abs(response.linear(u)).max(), 1e-3)
        mon.close(models.predict(model, crystal, u), want, "complete model equals the true linear response", rtol=0, atol=2e-5 * scale, displacement=u, **info)
        mon.event("linear response")
        op = crystal.ops()[int(rng.integers(len(crystal.ops())))]
        mon.close(models.predict(model, crystal, gen.act(op, u)), gen.act_tensor(op, want), "complete model is equivariant", rtol=0, atol=2e-5 * scale, displacement=u, **info)
        mon.event("equivariance")
    if len(crystal.ops()) > 1:
        mon.nontrivial("complete", crystal.name, crystal.lattice, art)


@case(quick=10, thorough=400)
def supercells(mon, rng, index):
    """Supercells: pure translations complete the model as well."""
    name = ["sc", "cscl", "nacl_prim", "hcp", "rhombo_polar", "ortho", "p-1", "p1", "tet_polar", "diamond_prim"][index % 10]
    crystal = gen.BASE[name]
    m = np.diag([2, 1, 1]) if index % 2 else np.diag([1, 2, 2])
    if np.prod(np.diag(m)) * crystal.n > 12:
        m = np.diag([1, 1, 2])
    crystal = crystal.recell(m)
    if rng.random() < 0.6:
        crystal = crystal.rotated(gen.rotation(rng)).permuted(rng.permutation(crystal.n))
    response = gen.Response(crystal, rng, degree=1)
    model = models.complete(crystal, response, rng, art=True)
    u = rng.normal(size=(crystal.n, 3))
    u *= models.limit_all(crystal, u, 0.3)
    scale = max(np.abs(response.linear(u)).max(), 1e-3)
    mon.close(models.predict(model, crystal, u), response.alpha(u), "complete supercell model equals the true linear response", rtol=0, atol=2e-5 * scale, crystal=crystal)
    mon.event("linear response")
    mon.nontrivial("supercell", crystal.name, crystal.lattice)
