"""P01: periodic-boundary arithmetic."""

import itertools

import numpy as np

from rnmon import gen
from rnmon.core import case

RULE = (
    "distinct (operation, regime of coordinates, shape) workloads in which at least one "
    "coordinate actually had to be wrapped"
)
ASSUMPTIONS = [
    "values a rounding error below a cell face may be wrapped to exactly 1.0",
    "integer/lattice-shift invariance is decided to 1e-9 (+4 ulp of the input)",
]

REGIMES = [
    "unit", "near", "far", "huge", "faces", "halves", "tiny_neg", "dyadic", "integers", "mixed",
]


def coords(rng, shape, regime):
    if regime == "unit":
        return rng.random(shape)
    if regime == "near":
        return rng.uniform(-2, 2, shape)
    if regime == "far":
        return rng.uniform(-50, 50, shape)
    if regime == "huge":
        return rng.uniform(-1, 1, shape) * 10.0 ** rng.integers(2, 7, shape)
    if regime == "faces":
        return rng.integers(-3, 4, shape) + rng.choice([0, 0, 1e-12, -1e-12, 1e-9, -1e-9], shape)
    if regime == "halves":
        return rng.integers(-6, 7, shape) / 2.0 + rng.choice([0, 0, 1e-10, -1e-10], shape)
    if regime == "tiny_neg":
        return -rng.choice([0.0, 1e-300, 1e-20, 1e-17, 1.2e-16, 1e-15, 1e-8], shape)
    if regime == "dyadic":
        return rng.integers(-64, 65, shape) / 16.0
    if regime == "integers":
        return rng.integers(-5, 6, shape).astype(float)
    parts = [coords(rng, shape, r) for r in REGIMES[:-1]]
    pick = rng.integers(0, len(parts), shape)
    return np.choose(pick, parts)


def shape_for(rng, batch=None):
    n = int(rng.choice([0, 1, 2, 3, 7, 15, 40, 150, 700]))
    if batch is None:
        batch = rng.random() < 0.3
    return (int(rng.choice([1, 2, 5, 33])), n, 3) if batch else (n, 3)


def layout(rng, x):
    """Vary memory layout without changing values."""
    k = rng.integers(4)
    if k == 0:
        return np.asfortranarray(x)
    if k == 1:
        y = np.zeros(x.shape[:-1] + (6,))
        y[..., ::2] = x
        return y[..., ::2]
    if k == 2:
        return x[::-1].copy()[::-1]
    return x


def frac_resid(d):
    return np.abs(d - np.rint(d))


def ulp(*xs):
    return 1e-15 + sum(4 * np.spacing(np.abs(x) + 1.0) for x in xs)


@case(quick=160, thorough=12000)
def wrapping(mon, rng, index):
    """apply_pbc / apply_pbc_displacement: range and integer difference."""
    from ramannoodle.structure.utils import apply_pbc, apply_pbc_displacement

    regime = REGIMES[index % len(REGIMES)]
    x = layout(rng, coords(rng, shape_for(rng), regime))
    y = apply_pbc(x)
    mon.check(np.shape(y) == x.shape, "apply_pbc keeps shape", got=np.shape(y), want=x.shape)
    tol = ulp(x)
    mon.check((y >= 0).all() and (y <= 1).all(), "wrapped positions in [0,1]", x=x, y=y)
    at_one = y == 1
    gap = np.ceil(x) - x
    mon.check(
        (~at_one | ((gap > 0) & (gap <= tol))).all(),
        "wrapped position equals 1 although input is not just below a face", x=x, y=y,
    )
    mon.check((frac_resid(y - x) <= tol).all(), "wrapping changed position by a non-integer", x=x, y=y)
    d = apply_pbc_displacement(x)
    mon.check(np.shape(d) == x.shape, "apply_pbc_displacement keeps shape")
    mon.check((d > -0.5).all() and (d <= 0.5).all(), "wrapped displacement in (-1/2,1/2]", x=x, d=d)
    mon.check((frac_resid(d - x) <= tol).all(), "displacement changed by a non-integer", x=x, d=d)
    if regime in ("dyadic", "integers"):
        # exactly representable: results must be exact, including ties
        mon.check(np.array_equal(y, x - np.floor(x)), "exact wrap", x=x, y=y)
        f = x - np.floor(x)
        mon.check(np.array_equal(d, np.where(f > 0.5, f - 1, f)), "exact displacement wrap", x=x, d=d)
        mon.event("exact")
    inside = (x >= 0) & (x < 1)
    mon.check(np.array_equal(y[inside], x[inside]), "positions inside the cell are unchanged", x=x, y=y)
    if x.size and not inside.all():
        mon.nontrivial("wrap", regime, x.shape)
    mon.event("coordinates", int(x.size))
    mon.sample(regime=regime, x=x, wrapped=y, displacement=d)


@case(quick=140, thorough=9000)
def displace_measure(mon, rng, index):
    """displace then measure; antisymmetry; lattice-shift invariance."""
    from ramannoodle.structure.utils import calc_displacement, displace_positions

    n = int(rng.choice([1, 2, 3, 8, 30, 200]))
    regime = REGIMES[index % len(REGIMES)]
    p = coords(rng, (n, 3), regime)
    dreg = REGIMES[int(rng.integers(len(REGIMES)))]
    batch = rng.random() < 0.35
    u = coords(rng, (int(rng.choice([1, 2, 6])), n, 3) if batch else (n, 3), dreg)
    p, u = layout(rng, p), layout(rng, u)
    q = displace_positions(p, u)
    tol = 1e-12 + ulp(p) + ulp(u)
    mon.check(q.shape == u.shape, "displace_positions shape", got=q.shape)
    mon.check((q >= 0).all() and (q <= 1).all(), "displaced positions inside the cell", p=p, u=u, q=q)
    mon.check((frac_resid(q - p - u) <= tol).all(), "displaced positions are p+u modulo integers", p=p, u=u, q=q)
    d = calc_displacement(p, q)
    mon.check(d.shape == u.shape, "calc_displacement shape", got=d.shape)
    mon.check((d > -0.5).all() and (d <= 0.5).all(), "measured displacement in (-1/2,1/2]", d=d)
    mon.check((frac_resid(d - u) <= tol).all(), "measured displacement is the applied one modulo integers", p=p, u=u, d=d)
    want = gen.minimg(u)
    near_tie = np.abs(np.abs(want) - 0.5) < 1e-6
    mon.check((np.abs(d - want)[~near_tie] <= np.broadcast_to(tol, d.shape)[~near_tie]).all(), "minimum image", p=p, u=u, d=d, want=want)
    back = calc_displacement(q, p)
    mon.check(
        (frac_resid(back + d) <= tol).all()
        and (np.abs(back + d)[~near_tie] <= np.broadcast_to(tol, d.shape)[~near_tie]).all(),
        "measured displacement antisymmetric", d=d, back=back,
    )
    # whole lattice vectors
    big = int(rng.choice([1, 2, 7, 100]))
    p2 = p + rng.integers(-big, big + 1, p.shape)
    q2 = q + rng.integers(-big, big + 1, q.shape)
    for a, b in [(p2, q), (p, q2), (p2, q2)]:
        dd = calc_displacement(a, b)
        tol2 = 1e-10
        mon.check(
            (frac_resid(dd - d) <= tol2).all()
            and (np.abs(dd - d)[~near_tie] <= tol2).all(),
            "measured displacement invariant under whole-lattice moves", d=d, dd=dd,
        )
    # batch / single consistency
    if batch:
        for s in range(u.shape[0]):
            mon.check(np.array_equal(calc_displacement(p, q[s]), d[s]), "batch equals single")
            mon.check(np.array_equal(displace_positions(p, u[s]), q[s]), "batch equals single (displace)")
        mon.event("batches")
    mon.nontrivial("displace", regime, dreg, u.shape)
    mon.event("coordinates", int(u.size))
    mon.sample(regime=regime, displacement_regime=dreg, p=p, u=u, measured=d)


@case(quick=80, thorough=5000)
def transforms(mon, rng, index):
    """transform_positions: x @ R + t modulo lattice vectors; group law; inverse."""
    from ramannoodle.structure.utils import transform_positions

    n = int(rng.choice([1, 2, 5, 24, 120]))
    kind = ["unit", "faces01", "dyadic01"][index % 3]
    if kind == "unit":
        p = rng.random((n, 3))
    elif kind == "faces01":
        p = rng.choice([0.0, 1.0, 0.5, 0.25, 1e-13, 1 - 1e-13, 1 / 3], (n, 3))
    else:
        p = rng.integers(0, 17, (n, 3)) / 16.0
    if rng.random() < 0.6:
        crystal = gen.BASE[rng.choice(gen.NAMES)]
        rot, t = [(o[0], o[1]) for o in crystal.ops()][int(rng.integers(len(crystal.ops())))]
    else:
        rot, t = gen.unimodular(rng, 3), rng.random(3)
    t = t + rng.integers(-3, 4, 3) * (rng.random() < 0.5)
    rot = np.array(rot, dtype=int if rng.random() < 0.5 else float)
    out = transform_positions(p, rot, t)
    want = p @ rot + t
    mon.check(out.shape == p.shape, "shape")
    mon.check((out >= 0).all() and (out <= 1).all(), "inside cell", out=out)
    mon.check((frac_resid(out - want) <= 1e-11).all(), "rotated and translated modulo lattice vectors", p=p, rotation=rot, t=t, out=out)
    inv = np.rint(np.linalg.inv(rot))
    back = transform_positions(gen.wrap(out), inv, -(t @ inv))
    mon.check((frac_resid(back - p) <= 1e-10).all(), "inverse operation restores positions", p=p, back=back)
    # the same rotation with the rounding errors of a Cartesian one
    lattice = gen.lattice(rng, str(rng.choice(["skew", "ortho", "left", "rot"])))
    rough = lattice @ (np.linalg.inv(lattice) @ np.asarray(rot, dtype=float) @ lattice) @ np.linalg.inv(lattice)
    for noisy in (rough, rot * (1 - 1e-13), rot + rng.choice([-1e-16, 1e-17, 3e-14], (3, 3)), rot * 0.9999999999999999):
        got = transform_positions(p, noisy, t)
        mon.check((got >= 0).all() and (got <= 1).all(), "inside cell (rotation with rounding errors)", out=got)
        mon.check((frac_resid(got - want) <= 1e-9).all(), "rounding errors of the rotation matter", p=p, rotation=noisy, t=t, out=got, want=want)
        mon.event("rotations with rounding errors")
    mon.nontrivial("transform", rot.astype(int), kind, n)
    mon.sample(p=p, rotation=rot, t=t, out=out)
    bad = p.copy()
    bad[0, 0] = rng.choice([-0.2, 1.3])
    mon.raises(ValueError, "positions outside the cell refused", transform_positions, bad, rot, t)


@case(quick=2, thorough=10)
def exhaustive_grid(mon, rng, index):
    """Every coordinate k/8 in [-4,4]: exact answers for all pairs."""
    from ramannoodle.structure.utils import (
        apply_pbc, apply_pbc_displacement, calc_displacement, displace_positions,
    )

    step = [8, 16, 6, 10, 12][index % 5]
    vals = np.arange(-4 * step, 4 * step + 1) / step
    f = vals - np.floor(vals)
    mon.close(gen.wrap(apply_pbc(vals)), gen.wrap(f), "grid wrap", atol=1e-12)
    exact = step in (8, 16)
    d = apply_pbc_displacement(vals)
    want = np.where(f > 0.5 + 1e-12, f - 1, f)
    tie = np.abs(f - 0.5) < 1e-12
    sel = slice(None) if exact else ~tie
    mon.close(d[sel], want[sel], "grid displacement", atol=1e-12)
    pairs = np.array(list(itertools.product(vals[:: max(1, step // 8)], repeat=2)))
    a = np.repeat(pairs[:, :1], 3, axis=1)
    b = np.repeat(pairs[:, 1:], 3, axis=1)
    m = calc_displacement(a, b)
    diff = b - a
    fd = diff - np.floor(diff)
    mon.check((frac_resid(m - diff) < 1e-12).all(), "grid measure modulo integers")
    t2 = np.abs(fd - 0.5) < 1e-9
    mon.check((np.abs(m - np.where(fd > 0.5, fd - 1, fd))[~t2] < 1e-12).all(), "grid minimum image")
    if exact:
        mon.check(np.array_equal(m, np.where(fd > 0.5, fd - 1, fd)), "grid minimum image incl. tie")
    s = displace_positions(a, b)
    mon.check((frac_resid(s - a - b) < 1e-12).all(), "grid displace")
    mon.nontrivial("grid", step)
    mon.event("coordinates", int(pairs.size))
