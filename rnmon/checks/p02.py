"""P02: fractional/Cartesian conversions and symbol lookup."""

import numpy as np

from rnmon import gen
from rnmon.checks.p01 import coords, layout, REGIMES
from rnmon.core import case, Inconclusive

RULE = "distinct (lattice kind, displacement regime, batch shape) or (element multiset, query) cases"
ASSUMPTIONS = ["relative tolerance 1e-9 times the lattice condition number"]

KINDS = ["skew", "ortho", "left", "aspect", "rot", "tiny", "huge", "nearly", "monoclinic"]


def structure(rng, kind, n):
    from ramannoodle.exceptions import SymmetryException

    for _ in range(8):
        if kind in ("nearly", "monoclinic"):
            # almost, but not quite, orthogonal: relaxed or strained cells
            lat = np.diag(rng.uniform(2, 9, 3))
            shear = 10.0 ** rng.uniform(-5, -1.5, (3, 3)) * rng.choice([-1, 1], (3, 3)) * (1 - np.eye(3))
            if kind == "monoclinic":
                shear *= np.arange(9).reshape(3, 3) == rng.choice([1, 2, 3, 5, 6, 7])
            lat = lat + shear
        else:
            lat = gen.lattice(rng, kind)
        pos = rng.random((n, 3))
        numbers = [int(x) for x in rng.integers(1, 119, n)]
        crystal = gen.Crystal(kind, numbers, lat, pos)
        try:
            return crystal, crystal.ref(symprec=1e-7)
        except SymmetryException:
            continue
    raise Inconclusive("spglib refused random structures")


@case(quick=99, thorough=4500)
def displacements(mon, rng, index):
    kind = KINDS[index % len(KINDS)]
    n = int(rng.choice([1, 2, 3, 6, 14, 40]))
    crystal, ref = structure(rng, kind, n)
    lat = crystal.lattice
    cond = np.linalg.cond(lat)
    scale = np.abs(lat).max()
    atol = 1e-12 * cond * scale
    regime = REGIMES[int(rng.integers(len(REGIMES)))]
    if regime == "huge":
        regime = "far"
    lead = [(), (1,), (4,), (2, 3)][int(rng.integers(4))]
    u = layout(rng, coords(rng, lead + (n, 3), regime))
    c = ref.get_cart_displacement(u)
    want = np.einsum("...i,ij->...j", gen.minimg(u), lat)
    f = u - np.floor(u)
    tie = (np.abs(f - 0.5) < 1e-9).any()
    if not tie:
        mon.close(c, want, "cartesian = lattice-weighted minimum image", rtol=1e-9, atol=atol + 1e-12 * scale)
    else:
        mon.check(c.shape == u.shape, "shape")
        back = c @ np.linalg.inv(lat)
        mon.check((np.abs((back - u) - np.rint(back - u)) < 1e-9 * cond).all() and (np.abs(back) < 0.5 + 1e-9 * cond).all(), "minimum image at tie", u=u, c=c)
        mon.event("ties")
    # inverse
    small = rng.uniform(-0.49, 0.49, (n, 3))
    back = ref.get_frac_displacement(ref.get_cart_displacement(small))
    mon.close(back, small, "frac(cart(u)) == u", rtol=0, atol=1e-12 * cond + 1e-13)
    cart = small @ lat
    mon.close(ref.get_frac_displacement(cart), small, "frac of cartesian", rtol=0, atol=1e-12 * cond + 1e-13)
    mon.close(ref.get_cart_displacement(ref.get_frac_displacement(cart)), cart, "cart(frac(c)) == c", rtol=1e-9, atol=atol)
    # frac displacement of large vectors is the minimum image
    big = small + rng.integers(-3, 4, (n, 3))
    mon.close(ref.get_frac_displacement(big @ lat), small, "frac displacement is the minimum image", rtol=0, atol=1e-10 * cond)
    # linear on small displacements
    a, b = rng.uniform(-1, 1, 2)
    v = rng.uniform(-0.2, 0.2, (n, 3))
    w = rng.uniform(-0.2, 0.2, (n, 3))
    mon.close(
        ref.get_cart_displacement(a * v + b * w),
        a * ref.get_cart_displacement(v) + b * ref.get_cart_displacement(w),
        "linear (cart)", rtol=1e-9, atol=atol,
    )
    mon.close(
        ref.get_frac_displacement((a * v + b * w) @ lat),
        a * ref.get_frac_displacement(v @ lat) + b * ref.get_frac_displacement(w @ lat),
        "linear (frac)", rtol=0, atol=1e-12 * cond + 1e-13,
    )
    # batch = singles
    if lead:
        flat = c.reshape((-1, n, 3))
        for k, one in enumerate(u.reshape((-1, n, 3))):
            mon.close(ref.get_cart_displacement(one), flat[k], "batch equals single", rtol=1e-12, atol=atol)
        mon.event("batches")
    mon.close(ref.lattice, lat, "lattice kept", rtol=0, atol=0)
    mon.close(ref.positions, crystal.positions, "positions kept", rtol=0, atol=0)
    mon.same(ref.atomic_numbers, crystal.numbers, "atomic numbers kept")
    mon.same(ref.num_atoms, n, "number of atoms")
    mon.nontrivial("displacement", kind, regime, u.shape)
    mon.sample(kind=kind, lattice=lat, u=u, cart=c)


@case(quick=99, thorough=4500)
def directions(mon, rng, index):
    kind = KINDS[index % len(KINDS)]
    crystal, ref = structure(rng, kind, int(rng.integers(1, 5)))
    lat = crystal.lattice
    cond = np.linalg.cond(lat)
    d = rng.normal(size=3) * 10.0 ** rng.integers(-6, 7)
    if index % 5 == 0:
        d = rng.integers(-3, 4, 3).astype(float)
        if not d.any():
            d = np.array([0.0, 0.5, 1.0])
    s = np.abs(d).max()
    c = ref.get_cart_direction(d)
    mon.close(c, sum(d[i] * lat[i] for i in range(3)), "direction to Cartesian without wrapping", rtol=1e-9, atol=1e-12 * s * np.abs(lat).max())
    mon.close(ref.get_frac_direction(c), d, "frac(cart(d)) == d", rtol=1e-9 * cond, atol=1e-12 * s * cond)
    e = rng.normal(size=3) * 10.0 ** rng.integers(-6, 7)
    f = ref.get_frac_direction(e)
    mon.check(np.shape(c) == (3,) and np.shape(f) == (3,), "direction shape (3,)")
    mon.close(sum(f[i] * lat[i] for i in range(3)), e, "direction to fractional without wrapping", rtol=1e-9 * cond, atol=1e-12 * np.abs(e).max() * cond)
    k = 10.0 ** rng.uniform(-5, 5) * rng.choice([-1, 1])
    mon.close(ref.get_frac_direction(k * e) / k, f, "magnitude does not matter", rtol=1e-9, atol=1e-12 * np.abs(f).max())
    mon.close(ref.get_cart_direction(k * d) / k, c, "magnitude does not matter", rtol=1e-9, atol=1e-12 * np.abs(c).max())
    for bad in (np.zeros(2), np.zeros((1, 3)), np.zeros((3, 3)), np.zeros(4)):
        mon.raises(ValueError, "direction of wrong shape refused", ref.get_cart_direction, bad)
        mon.raises(ValueError, "direction of wrong shape refused", ref.get_frac_direction, bad)
    mon.nontrivial("direction", kind, np.round(np.log10(s)))
    mon.sample(kind=kind, lattice=lat, direction=d, cart=c)


@case(quick=40, thorough=1500)
def symbols(mon, rng, index):
    from rnmon.elements import SYMBOL

    n = int(rng.choice([1, 3, 6, 12, 30]))
    pool = rng.choice(np.arange(1, 119), int(rng.integers(1, 6)), replace=False)
    if index % 4 == 0:
        # symbols contained in one another: C/Co/Cs/Ca, N/Na/Ne/Nb, O/Os, S/Si/Sr/Sn, ...
        pool = np.array([6, 27, 55, 20, 7, 11, 10, 41, 8, 76, 16, 14, 38, 50, 5, 56, 35])
    lat = np.diag([40.0, 41.0, 43.0])
    numbers = [int(x) for x in rng.choice(pool, n)]
    crystal = gen.Crystal("lookup", numbers, lat, rng.random((n, 3)))
    ref = crystal.ref()
    queries = [int(z) for z in pool] + [int(rng.integers(1, 119))]
    for z in queries:
        want = [i for i, m in enumerate(numbers) if m == z]
        mon.same([int(i) for i in ref.get_atom_indexes(SYMBOL[z])], want, "atoms of one element", numbers=numbers, symbol=SYMBOL[z])
        mon.same([int(i) for i in ref.get_atom_indexes([SYMBOL[z]])], want, "atoms of one-element list")
    for _ in range(4):
        sel = [int(z) for z in rng.choice(queries, int(rng.integers(0, len(queries) + 1)))]
        want = [i for i, m in enumerate(numbers) if m in sel]
        mon.same([int(i) for i in ref.get_atom_indexes([SYMBOL[z] for z in sel])], want, "atoms of several elements, in order", numbers=numbers, symbols=sel)
    mon.nontrivial("lookup", sorted(numbers))
    mon.sample(numbers=numbers)


@case(quick=118, thorough=236)
def every_element(mon, rng, index):
    from rnmon.elements import SYMBOL

    z = index % 118 + 1
    ref = gen.Crystal("el", [z, z % 118 + 1, z], np.diag([5.0, 6, 7]), [[0, 0, 0], [0.3, 0.4, 0.2], [0.7, 0.1, 0.6]]).ref()
    mon.same([int(i) for i in ref.get_atom_indexes(SYMBOL[z])], [0, 2], "element lookup", symbol=SYMBOL[z])
    mon.nontrivial("element", z)
