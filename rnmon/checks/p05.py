"""P05: interpolation reproduces the supplied data and superposes."""

import numpy as np

from rnmon import gen, models
from rnmon.core import Inconclusive, case

RULE = "distinct (lattice, displacement, amplitudes, order) specifications whose supplied points were re-evaluated"
ASSUMPTIONS = [
    "relative tolerance 1e-8 of the largest polarizability change (spline conditioning)",
    "displacements stay below half a cell per component",
]
REQUIRED_EVENTS = ["supplied points", "polynomials", "superpositions", "batches", "outside components", "linear pieces", "reference included", "reference excluded"]


def amplitudes(rng, top, count, kind):
    if kind == "sym":
        half = np.linspace(1.0 / count, 1, count // 2 + 1)
        a = np.concatenate([half, -half])[:count]
    elif kind == "one-sided":
        a = np.linspace(0.1, 1, count)
    elif kind == "negative":
        a = -np.linspace(0.1, 1, count)
    elif kind == "uneven":
        a = np.cumsum(rng.uniform(0.3, 1.0, count))
        a = a / a[-1] * 2 - 1.0
        a = a + 0.05 * (np.abs(a) < 0.02)
    else:
        a = np.linspace(-1, 1, count + (count % 2 == 1))[:count]
    a = np.where(np.abs(a) < 1e-3, 0.013, a)
    return rng.permutation(a * top)


def tensors(rng, count, kind):
    t = rng.normal(size=(count, 3, 3))
    if kind != "general":
        t = (t + t.transpose(0, 2, 1)) / 2
    if kind == "large":
        t = t * 300
    if kind == "int":
        t = np.rint(4 * t).astype(int)
    return t


def direction(crystal, rng, kind):
    u = np.zeros((crystal.n, 3))
    if kind == "atom":
        u[int(rng.integers(crystal.n))] = rng.normal(size=3)
    elif kind == "axis":
        u[int(rng.integers(crystal.n)), int(rng.integers(3))] = 1.0
    elif kind == "lattice":
        u[int(rng.integers(crystal.n))] = crystal.lattice[int(rng.integers(3))]
    else:
        u = rng.normal(size=u.shape)
    return u / np.linalg.norm(u)


@case(quick=140, thorough=12000)
def one_direction(mon, rng, index):
    """One degree of freedom, arbitrary data."""
    _, interp = models.classes()
    kind = str(rng.choice(["skew", "ortho", "left", "rot", "huge"]))
    crystal = gen.p1_crystal(rng, kind=kind)
    order = 1 + index % 5
    include = bool((index // 5) % 2)
    how = ["sym", "one-sided", "negative", "uneven", "grid"][int(rng.integers(5))]
    count = order + 1 - (1 if include else 0) + int(rng.choice([0, 0, 1, 2, 5]))
    u = direction(crystal, rng, str(rng.choice(["atom", "axis", "lattice", "all"])))
    top = models.limit(crystal, u, 0.45 if rng.random() < 0.3 else 0.1)
    amps = amplitudes(rng, top, count, how)
    gaps = np.diff(np.sort(np.append(amps, 0.0) if include else amps))
    if len(gaps) and gaps.min() < 0.02 * top:
        raise Inconclusive("amplitudes too close")
    ref = gen.sym_tensor(rng) + 4 * np.eye(3)
    pols = tensors(rng, count, str(rng.choice(["sym", "general", "large", "int"])))
    mag = float(rng.choice([1.0, 1e-3, 250.0]))
    model = interp(crystal.ref(), ref)
    model.add_dof(u * mag, amps.copy(), pols.copy(), order, include)
    scale = max(np.abs(pols).max(), np.abs(ref).max())
    got = models.predict(model, crystal, amps[:, None, None] * u)
    info = dict(crystal=crystal, direction=u, amplitudes=amps, order=order, include_ref=include)
    mon.close(got, pols, "supplied points are reproduced", rtol=0, atol=1e-7 * scale, **info)
    mon.event("supplied points", count)
    at_zero = models.predict(model, crystal, 0 * u)
    if include:
        mon.close(at_zero, ref, "reference polarizability at zero", rtol=0, atol=1e-7 * scale, **info)
        mon.event("reference included")
    else:
        mon.event("reference excluded")
    if order == 1:
        xs = np.append(amps, 0.0) if include else amps
        ys = np.concatenate([pols, ref[None]]) if include else pols
        sort = np.argsort(xs)
        test = rng.uniform(xs.min(), xs.max(), 7)
        want = np.array([[[np.interp(a, xs[sort], ys[sort][:, i, j]) for j in range(3)] for i in range(3)] for a in test])
        mon.close(models.predict(model, crystal, test[:, None, None] * u), want, "piecewise linear between the points", rtol=0, atol=1e-7 * scale, **info)
        mon.event("linear pieces")
    # whole-cell moves and components outside the degree of freedom
    pos = models.moved(crystal, amps[:, None, None] * u)
    mon.close(model.calc_polarizabilities(pos + rng.integers(-3, 4, pos.shape)), got, "whole-cell moves change nothing", rtol=0, atol=1e-7 * scale, **info)
    other = rng.normal(size=u.shape)
    other -= np.sum(other * u) * u
    other *= models.limit(crystal, other, 0.04)
    if top < models.limit(crystal, u, 0.2):
        mon.close(models.predict(model, crystal, amps[:, None, None] * u + other), got, "components outside the degree of freedom contribute", rtol=0, atol=1e-6 * scale, outside=other, **info)
        mon.event("outside components")
    mon.nontrivial(crystal.lattice, u, amps, order, include)
    mon.sample(order=order, amplitudes=amps, include_ref=include, how=how, crystal=crystal)


@case(quick=60, thorough=6000)
def polynomials(mon, rng, index):
    """Polynomial data up to the order is reproduced everywhere in the range."""
    _, interp = models.classes()
    order = 1 + index % 5
    symmetric = index % 3 == 0
    if symmetric:
        crystal = gen.describe(rng)
        u = direction(crystal, rng, str(rng.choice(["atom", "axis"])))
        if models.obliqueness(crystal, u)[1]:
            raise Inconclusive("nearly parallel or orthogonal images")
        response = gen.Response(crystal, rng, degree=min(order, 3))
        amps, _ = models.amplitudes_for(crystal, u, order, rng, extra=int(rng.integers(3)))
        alpha = response.alpha
        ref = response.ref
        degree = min(order, 3)
    else:
        crystal = gen.p1_crystal(rng)
        u = direction(crystal, rng, str(rng.choice(["atom", "axis", "all"])))
        top = models.limit(crystal, u, 0.3)
        amps = amplitudes(rng, top, order + 2 + int(rng.integers(4)), "grid")
        degree = int(rng.integers(1, order + 1))
        coef = rng.normal(size=(degree + 1, 3, 3))
        ref = coef[0]
        alpha = lambda f: sum(c * (np.sum(f * u) / top) ** p for p, c in enumerate(coef))
    include = bool(rng.integers(2))
    model = interp(crystal.ref(), ref.copy())
    pols = np.array([alpha(a * u) for a in amps])
    model.add_dof(u, amps.copy(), pols.copy(), order, include)
    low, high = amps.min(), amps.max()
    if symmetric and gen.has_negative(crystal, u):
        low = -high
    test = np.append(rng.uniform(low, high, 9), [low, high])
    want = np.array([alpha(a * u) for a in test])
    scale = max(np.abs(pols - ref).max(), 1e-3 * np.abs(ref).max())
    info = dict(crystal=crystal, direction=u, amplitudes=amps, order=order, include_ref=include)
    mon.close(models.predict(model, crystal, test[:, None, None] * u), want, "polynomial data reproduced in the sampled range", rtol=0, atol=1e-6 * scale, points=test, **info)
    mon.close(models.predict(model, crystal, amps[:, None, None] * u), pols, "supplied points are reproduced", rtol=0, atol=1e-6 * scale, **info)
    mon.event("polynomials")
    mon.event("symmetric polynomials" if symmetric else "plain polynomials")
    mon.nontrivial("poly", crystal.lattice, u, amps, order, degree)


@case(quick=60, thorough=6000)
def superposition(mon, rng, index):
    """Several orthogonal degrees of freedom add up; batches are element-wise."""
    art_class, interp = models.classes()
    crystal = gen.p1_crystal(rng)
    n3 = 3 * crystal.n
    art = index % 4 == 3
    if art:
        basis = np.zeros((n3, n3))
        for k in range(crystal.n):
            basis[3 * k : 3 * k + 3, 3 * k : 3 * k + 3] = gen.rotation(rng, improper=bool(rng.integers(2)))
        basis = basis[rng.permutation(n3)]
    else:
        basis = np.linalg.qr(rng.normal(size=(n3, n3)))[0].T
    count = int(rng.integers(2, n3 + 1))
    ref = gen.sym_tensor(rng) + 4 * np.eye(3)
    model = (art_class if art else interp)(crystal.ref(), ref)
    curves, supplied = [], []
    for row in basis[:count]:
        u = row.reshape(-1, 3)
        top = min(0.2, models.limit(crystal, u, 0.05))
        single = (art_class if art else interp)(crystal.ref(), ref)
        if art:
            amps = top * np.array([rng.uniform(0.5, 1), -rng.uniform(0.5, 1)])
            pols = ref + tensors(rng, 2, "sym")
            atom = int(np.argmax(np.abs(u).sum(axis=1)))
            for target in (model, single):
                target.add_art(atom, u[atom], amps, pols)
        else:
            order = int(rng.integers(1, 4))
            amps = amplitudes(rng, top, order + 2 + int(rng.integers(2)), "grid")
            pols = ref + tensors(rng, len(amps), "sym")
            include = bool(rng.integers(2))
            for target in (model, single):
                target.add_dof(u, amps, pols, order, include)
        curves.append(single)
        supplied.append((u, amps, pols))
    samples = int(rng.choice([1, 2, 7, 40, 300]) if not mon.thorough else rng.choice([1, 2, 7, 40, 300, 2000]))
    fields, want, exact = [], [], []
    for _ in range(samples):
        u = np.zeros((crystal.n, 3))
        total = ref.copy()
        for (v, amps, pols) in supplied:
            k = int(rng.integers(len(amps)))
            if rng.random() < 0.8:
                u = u + amps[k] * v
                total = total + pols[k] - ref
                exact.append(1)
            else:
                exact.append(0)  # at rest: contributes its own value at zero, added below
        fields.append(u)
        want.append(total)
    fields = np.array(fields)
    # contributions at zero amplitude, from single models (do not vanish without the reference point)
    zero = [models.predict(m, crystal, np.zeros((crystal.n, 3))) - ref for m in curves]
    flags = np.array(exact).reshape(samples, len(supplied))
    want = np.array(want) + np.einsum("sj,jab->sab", 1 - flags, np.array(zero))
    scale = np.abs(want).max()
    if np.abs(fields @ np.linalg.inv(crystal.lattice)).max() > 0.48:
        raise Inconclusive("combined displacement beyond half a cell")
    got = models.predict(model, crystal, fields)
    info = dict(crystal=crystal, dofs=count, art=art)
    mon.close(got, want, "response to combined displacements is the sum", rtol=0, atol=1e-6 * scale, **info)
    mon.event("superpositions", samples)
    # outside component
    if count < n3:
        out = basis[count:].T @ rng.normal(size=n3 - count)
        out = out.reshape(-1, 3)
        out *= models.limit(crystal, out, 0.02)
        mon.close(models.predict(model, crystal, fields + out), want, "components outside all degrees of freedom contribute", rtol=0, atol=1e-6 * scale, **info)
        mon.event("outside components")
    # batch semantics
    pos = models.moved(crystal, fields)
    pick = rng.permutation(samples)
    mon.close(model.calc_polarizabilities(pos[pick]), got[pick], "batch order", rtol=0, atol=1e-10 * scale, **info)
    for k in pick[:5]:
        mon.close(model.calc_polarizabilities(pos[k : k + 1])[0], got[k], "single evaluation differs from batch", rtol=0, atol=1e-10 * scale, **info)
    shifted = pos + rng.integers(-2, 3, pos.shape)
    mon.close(model.calc_polarizabilities(np.asfortranarray(shifted)), got, "whole-cell moves of any atoms", rtol=0, atol=1e-8 * scale, **info)
    doubled = np.concatenate([pos, pos])[::2]
    mon.close(model.calc_polarizabilities(doubled), np.concatenate([got, got])[::2], "repeated configurations in a batch", rtol=0, atol=1e-10 * scale, **info)
    # one array filled again and again, as simulation loops do
    buffer = pos[:1].copy()
    for k in pick[:5]:
        buffer[...] = pos[k]
        mon.close(model.calc_polarizabilities(buffer)[0], got[k], "configuration in an array used before", rtol=0, atol=1e-10 * scale, **info)
    mon.event("batches")
    mon.nontrivial("superposition", crystal.lattice, count, samples, art)


@case(quick=12, thorough=600)
def big(mon, rng, index):
    """Many atoms, many degrees of freedom, long batches."""
    _, interp = models.classes()
    n = int(rng.integers(15, 45))
    lat = gen.lattice(rng, "skew") * 2
    base = gen.Crystal("big", sorted(int(x) for x in rng.integers(1, 90, n)), lat, rng.random((n, 3)))
    ref = gen.sym_tensor(rng) + 4 * np.eye(3)
    model = interp(base.ref(), ref)
    basis = np.linalg.qr(rng.normal(size=(3 * n, 3 * n)))[0].T
    count = int(rng.integers(10, 3 * n + 1)) if mon.thorough else 20
    slopes = tensors(rng, count, "sym")
    for row, slope in zip(basis, slopes):
        a = 0.1
        model.add_dof(row.reshape(-1, 3), np.array([a, -a]), ref + np.array([a, -a])[:, None, None] * slope, 1, bool(index % 2))
    samples = int(rng.choice([50, 700, 1001, 1024, 1025, 2049]))
    coef = rng.normal(size=(samples, 3 * n)) * 0.03
    fields = (coef @ basis).reshape(samples, n, 3)
    want = ref + np.einsum("sj,jab->sab", coef[:, :count], slopes)
    mon.close(models.predict(model, base, fields), want, "linear model of many degrees of freedom", rtol=0, atol=1e-8 * np.abs(want).max(), atoms=n, dofs=count, samples=samples)
    mon.event("superpositions", samples)
    mon.event("batches")
    mon.nontrivial("big", n, count, samples)
