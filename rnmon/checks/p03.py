"""P03: symmetrically equivalent displacements and atoms."""

import numpy as np

from rnmon import gen
from rnmon.core import case, Inconclusive

RULE = (
    "distinct (crystal description, displacement kind) pairs for which the crystal has more "
    "than one symmetry operation"
)
ASSUMPTIONS = [
    "ground truth: brute-force search of lattice isometries and translations (no spglib)",
    "displacements whose images are nearly (but not exactly) parallel or orthogonal "
    "(cosine within 1e-6..1e-3 of 0 or 1) are not decided",
]
REQUIRED_EVENTS = ["multi_dof", "paired_entries", "related crystals", "hundreds of operations", "collective displacements of many atoms", "refused"]


def displacement(crystal, rng):
    """Random cartesian displacement field and its kind."""
    n = crystal.n
    kind = rng.choice(
        ["atom_axis", "atom_generic", "atom_adapted", "collective", "invariant", "lattice", "two_atoms"]
    )
    u = np.zeros((n, 3))
    k = int(rng.integers(n))
    if kind == "atom_axis":
        u[k] = np.eye(3)[rng.integers(3)]
    elif kind == "atom_generic":
        u[k] = rng.normal(size=3)
    elif kind == "atom_adapted":
        pool = gen.directions_for(crystal, k, rng)
        u[k] = pool[int(rng.integers(len(pool)))]
    elif kind == "lattice":
        u[k] = rng.integers(-1, 2, 3) @ crystal.lattice
        if not u.any():
            u[k] = crystal.lattice[0]
    elif kind == "two_atoms":
        u[k] = crystal.lattice[rng.integers(3)]
        u[int(rng.integers(n))] += rng.choice([-1, 1]) * crystal.lattice[rng.integers(3)]
    elif kind == "invariant":
        # average of a random field over a random one-parameter character
        v = rng.normal(size=(n, 3))
        ops = crystal.ops()
        u = np.mean([gen.act(op, v) for op in ops], axis=0)
        if np.linalg.norm(u) < 1e-3:
            g = ops[int(rng.integers(len(ops)))]
            u = v - gen.act(g, v)
    if kind == "collective" or np.linalg.norm(u) < 1e-6:
        u = rng.normal(size=(n, 3))
    return u / np.linalg.norm(u), str(kind)


def check_equivalents(mon, ref, crystal, u, kind, rng):
    """All oracles for one displacement (u: unit cartesian field)."""
    lat = crystal.lattice
    ops = crystal.ops()
    frac = u @ np.linalg.inv(lat)
    biggest = np.abs(frac).max()
    mag = rng.choice([0.45, 0.1, 1e-2, 1e-4]) / biggest
    arg = frac * mag
    result = ref.get_equivalent_displacements(arg.copy())
    imgs = np.array([gen.act(op, u) for op in ops]).reshape(len(ops), -1)
    flat, owner = [], []
    for j, entry in enumerate(result):
        mon.check(len(entry["displacements"]) == len(entry["transformations"]) > 0, "one transformation per displacement")
        for d, (rot, trans) in zip(entry["displacements"], entry["transformations"]):
            mon.check(np.shape(d) == (crystal.n, 3), "shape of a displacement")
            c = (d @ lat).ravel()
            flat.append(c / np.linalg.norm(c))
            owner.append(j)
    flat = np.array(flat)
    owner = np.array(owner)
    cos = imgs @ u.ravel()
    allcos = flat @ imgs.T
    grey = ((np.abs(cos) > 1e-6) & (np.abs(cos) < 1e-3)) | (
        (np.abs(cos) > 1 - 1e-3) & (np.abs(cos) < 1 - 1e-9)
    )
    if grey.any():
        raise Inconclusive("nearly parallel or nearly orthogonal images")
    info = dict(crystal=crystal, displacement=arg, kind=kind)
    # 1 every reported entry is an image
    mon.check((allcos.max(axis=1) > 1 - 1e-7).all(), "a reported displacement is not an image under any symmetry operation", cosines=allcos.max(axis=1), **info)
    # ... under its own transformation
    for j, entry in enumerate(result):
        for d, (rot, trans) in zip(entry["displacements"], entry["transformations"]):
            w = np.array(rot, dtype=float)
            moved = crystal.positions @ w + np.array(trans)
            c = np.zeros((crystal.n, 3))
            dd = moved[:, None] - crystal.positions[None]
            dist = np.linalg.norm((dd - np.rint(dd)) @ lat, axis=-1)
            perm = dist.argmin(axis=1)
            mon.check(dist.min(axis=1).max() < 0.05, "a reported transformation is not a symmetry operation", rotation=rot, translation=trans, **info)
            c[perm] = (frac @ w) @ lat
            got = d @ lat
            mon.close(got / np.linalg.norm(got), c / np.linalg.norm(c), "a reported displacement is not the image under its reported transformation", rtol=0, atol=1e-6, **info)
    # 2 original belongs to the first degree of freedom
    mon.check((flat[owner == 0] @ u.ravel()).max() > 1 - 1e-7, "the original displacement is not in the first degree of freedom", **info)
    # 3 orthogonal / collinear / distinct
    gram = flat @ flat.T
    same = owner[:, None] == owner[None, :]
    mon.check((np.abs(gram[~same]) < 1e-4).all(), "degrees of freedom are not orthogonal", gram=gram, **info)
    mon.check((np.abs(gram[same]) > 1 - 1e-7).all(), "entries of one degree of freedom are not collinear", gram=gram, **info)
    off = gram - 2 * np.eye(len(gram))
    mon.check((off[same] < 1 - 1e-3).all(), "duplicate entries in one degree of freedom", gram=gram, **info)
    # 4 every operation carrying the displacement to +-reported is represented
    for k in range(len(ops)):
        proj = flat @ imgs[k]
        if np.abs(proj).max() > 1 - 1e-7:
            mon.check(proj.max() > 1 - 1e-7, "an operation carrying the displacement to minus a reported one is not represented", op=ops[k][:2], **info)
        elif np.abs(proj).max() < 1e-6:
            mon.check(False, "an image orthogonal to all reported degrees of freedom is missing", op=ops[k][:2], **info)
    mon.event("entries", len(flat))
    mon.event("operations", len(ops))
    if len(result) > 1:
        mon.event("multi_dof")
    if (np.bincount(owner) > 1).any():
        mon.event("paired_entries")
    if len(ops) > 1:
        mon.nontrivial(crystal.name, crystal.lattice, kind, u)
    # magnitude does not matter
    again = ref.get_equivalent_displacements(arg * 0.37)
    mon.same([len(e["displacements"]) for e in again], [len(e["displacements"]) for e in result], "result depends on magnitude of the displacement", **info)
    # unwrapped representation of the same displacement
    shifted = ref.get_equivalent_displacements(arg + rng.integers(-2, 3, arg.shape))
    mon.same([len(e["displacements"]) for e in shifted], [len(e["displacements"]) for e in result], "result depends on the lattice image of the displacement", **info)


def check_atoms(mon, ref, crystal):
    d = ref.get_equivalent_atom_dict()
    groups = [frozenset([int(k), *[int(x) for x in v]]) for k, v in d.items()]
    mon.check(sum(len(g) for g in groups) == crystal.n == sum(1 + len(v) for v in d.values()), "equivalent-atom groups are not a partition", groups=groups, crystal=crystal)
    mon.same(set(groups), crystal.orbits(), "equivalent atoms are not the orbits of the symmetry group", crystal=crystal)
    mon.same(int(ref.num_nonequivalent_atoms), len(groups), "number of nonequivalent atoms", crystal=crystal)


@case(quick=110, thorough=6000)
def crystals(mon, rng, index):
    """Base crystals in random re-descriptions."""
    name = gen.NAMES[index % len(gen.NAMES)] if index % 2 == 0 else None
    crystal = gen.describe(rng, name)
    pos = crystal.positions
    stored = pos
    if rng.random() < 0.3:
        stored = pos + rng.integers(-2, 3, pos.shape)
        mon.event("positions_outside_cell")
    ref = gen.Crystal(crystal.name, crystal.numbers, crystal.lattice, stored).ref()
    check_atoms(mon, ref, crystal)
    for _ in range(2):
        u, kind = displacement(crystal, rng)
        check_equivalents(mon, ref, crystal, u, kind, rng)
    mon.sample(crystal=crystal, ops=len(crystal.ops()), kind=kind)


@case(quick=29, thorough=290)
def plain_bases(mon, rng, index):
    """Each base crystal, every atom along crystal axes, Cartesian axes and adapted axes."""
    crystal = gen.BASE[gen.NAMES[index % len(gen.NAMES)]]
    if index >= len(gen.NAMES):
        crystal = crystal.rotated(gen.rotation(rng)).shifted(rng.random(3))
    ref = crystal.ref()
    check_atoms(mon, ref, crystal)
    atoms = sorted(min(o) for o in crystal.orbits())
    for k in atoms:
        pool = list(np.eye(3)) + [v / np.linalg.norm(v) for v in crystal.lattice]
        pool += [p for p in gen.directions_for(crystal, k, rng)[:3]]
        for p in pool[: 9 if mon.thorough else 7]:
            u = np.zeros((crystal.n, 3))
            u[k] = p
            try:
                check_equivalents(mon, ref, crystal, u, "base_atom", rng)
            except Inconclusive as exc:
                mon.skip(str(exc))


@case(quick=10, thorough=500)
def supercells(mon, rng, index):
    """Larger supercells (many pure translations)."""
    name = rng.choice(["sc", "cscl", "nacl_prim", "sto", "hcp", "rhombo_polar", "ortho", "p-1", "p1", "tet_polar", "cmmm_prim"])
    crystal = gen.BASE[str(name)]
    m = np.diag(rng.choice([1, 2, 3], 3)) if index % 2 else np.diag([2, 2, 2])
    if np.prod(np.diag(m)) * crystal.n > 40:
        m = np.diag([2, 2, 1])
    crystal = crystal.recell(m)
    if index % 3 == 0:
        crystal = crystal.rotated(gen.rotation(rng)).permuted(rng.permutation(crystal.n))
    ref = crystal.ref()
    check_atoms(mon, ref, crystal)
    u, kind = displacement(crystal, rng)
    check_equivalents(mon, ref, crystal, u, kind, rng)
    mon.event("supercells")


@case(quick=16, thorough=400)
def strained(mon, rng, index):
    """Crystals that share all but one of lattice, elements and positions, in one process."""
    name = str(rng.choice(["sc", "cscl", "nacl_prim", "sto", "hcp", "ortho", "tet_polar", "rutile", "p4"]))
    base = gen.BASE[name]
    if index % 2:
        base = base.shifted(rng.random(3)).permuted(rng.permutation(base.n))
    strain = np.diag(1 + rng.permutation([0.0, 0.06, -0.05]))
    numbers = [int(z) for z in base.numbers]
    swapped = list(numbers)
    swapped[int(rng.integers(base.n))] = 54
    moved = base.positions.copy()
    moved[int(rng.integers(base.n))] += rng.uniform(-1, 1, 3) * 0.3 / np.linalg.norm(base.lattice, axis=1)
    members = [
        base,
        gen.Crystal(base.name + " strained", numbers, base.lattice @ strain, base.positions),
        gen.Crystal(base.name + " substituted", swapped, base.lattice, base.positions),
        gen.Crystal(base.name + " moved", numbers, base.lattice, moved),
    ]
    u, kind = displacement(base, rng)
    order = [int(k) for k in rng.permutation(len(members))]
    for k in order + order[:2]:
        ref = members[k].ref()
        check_atoms(mon, ref, members[k])
        try:
            check_equivalents(mon, ref, members[k], u, kind, rng)
        except Inconclusive as exc:
            mon.skip(str(exc))
        mon.event("related crystals")
    mon.nontrivial("related", name, order, moved)


@case(quick=3, thorough=60)
def many_operations(mon, rng, index):
    """Supercells with hundreds or thousands of operations."""
    name, m = [("sc", (3, 3, 3)), ("sto", (2, 2, 2)), ("sc", (3, 3, 2)), ("nacl_prim", (2, 2, 2)), ("cscl", (3, 3, 3)), ("sc", (4, 4, 4)), ("hcp", (3, 3, 3))][(index if mon.thorough else int(rng.integers(3)) if index == 2 else index) % 7]
    crystal = gen.BASE[name].recell(np.diag(m))
    if index % 2:
        crystal = crystal.rotated(gen.rotation(rng)).permuted(rng.permutation(crystal.n))
    ref = crystal.ref()
    check_atoms(mon, ref, crystal)
    for _ in range(2):
        u, kind = displacement(crystal, rng)
        try:
            check_equivalents(mon, ref, crystal, u, kind, rng)
        except Inconclusive as exc:
            mon.skip(str(exc))
    if len(crystal.ops()) > 192:
        mon.event("hundreds of operations")
    mon.nontrivial("many operations", name, m, u)


@case(quick=24, thorough=1500)
def noisy(mon, rng, index):
    """Slightly noisy positions with a matching symmetry tolerance."""
    base = gen.describe(rng, recell=index % 2 == 0)
    amp = 10.0 ** rng.uniform(-4.5, -2.7)
    noise = rng.uniform(-1, 1, (base.n, 3)) * amp
    crystal = gen.Crystal(base.name + "+noise", base.numbers, base.lattice, base.positions + noise @ np.linalg.inv(base.lattice))
    ref = crystal.ref(symprec=amp * 12)
    import spglib

    found = spglib.get_symmetry((crystal.lattice, crystal.positions, crystal.numbers), symprec=amp * 12)
    if found is None or len(found["rotations"]) != len(base.ops()):
        raise Inconclusive("spglib did not restore the ideal symmetry of a noisy crystal")
    check_atoms(mon, ref, base)
    u, kind = displacement(base, rng)
    check_equivalents(mon, ref, base, u, kind, rng)
    mon.event("noisy")


@case(quick=24, thorough=1500)
def transformation_covariance(mon, rng, index):
    """The same physical displacement in two descriptions has the same number of images."""
    base = gen.describe(rng, recell=False)
    u, kind = displacement(base, rng)
    rot = gen.rotation(rng)
    shift = rng.random(3)
    order = rng.permutation(base.n)
    other = base.rotated(rot).shifted(shift).permuted(order)
    a = base.ref().get_equivalent_displacements(0.1 * u @ np.linalg.inv(base.lattice))
    v = (u @ rot)[order]
    b = other.ref().get_equivalent_displacements(0.1 * v @ np.linalg.inv(other.lattice))
    imgs = gen.images(base, u)
    cos = np.array([np.sum(u * w) for w in imgs])
    if ((np.abs(cos) > 1e-6) & (np.abs(cos) < 1e-3)).any() or ((np.abs(cos) > 0.999) & (np.abs(cos) < 1 - 1e-9)).any():
        raise Inconclusive("nearly parallel or nearly orthogonal images")
    # the first degree of freedom never depends on the order of operations
    mon.same(len(a[0]["displacements"]), len(b[0]["displacements"]), "entries of the first degree of freedom depend on the description", crystal=base, displacement=u)
    nonobl = all(abs(c) < 1e-6 or abs(c) > 1 - 1e-7 for c in cos)
    if nonobl:
        mon.same(
            sorted(len(e["displacements"]) for e in a), sorted(len(e["displacements"]) for e in b),
            "degrees of freedom depend on the description", crystal=base, displacement=u,
        )
        mon.event("non_oblique")
    if len(base.ops()) > 1:
        mon.nontrivial("covariance", base.name, base.lattice, kind)


GROUPS = {
    # generators (fractional, row convention x @ W + t) on a lattice that allows them
    "P-1": ("triclinic", [(-np.eye(3), [0, 0, 0])]),
    "P2_1": ("monoclinic", [(np.diag([-1, 1, -1]), [0, 0.5, 0])]),
    "Pc": ("monoclinic", [(np.diag([1, -1, 1]), [0, 0, 0.5])]),
    "P2_1/c": ("monoclinic", [(np.diag([-1, 1, -1]), [0, 0.5, 0.5]), (-np.eye(3), [0, 0, 0])]),
    "P2_12_12_1": ("orthorhombic", [(np.diag([-1, -1, 1]), [0.5, 0, 0.5]), (np.diag([-1, 1, -1]), [0, 0.5, 0.5])]),
}


def big_crystal(rng, name, atoms):
    """Crystal of many atoms in general positions of a small space group."""
    system, generators = GROUPS[name]
    lattice = np.diag(rng.uniform(1.0, 1.3, 3)) * np.cbrt(atoms * 9.0)
    if system == "monoclinic":
        lattice[0, 2] = -0.25 * lattice[0, 0]
    elif system == "triclinic":
        lattice = lattice @ (np.eye(3) + rng.uniform(-0.1, 0.1, (3, 3)))
    ops = [(np.eye(3), np.zeros(3))]
    for w, t in generators:
        ops += [(a @ w, (np.array(b) @ w + t) % 1) for a, b in ops]
    motif = []
    while len(motif) < atoms // len(ops):
        x = rng.random(3)
        mine = np.array([(x @ w + t) % 1 for w, t in ops])
        others = np.array([m for block in motif for m in block]).reshape(-1, 3)
        near = np.concatenate([mine[1:], others]) - x
        if len(near) == 0 or np.linalg.norm((near - np.rint(near)) @ lattice, axis=1).min() > 0.6:
            motif.append(mine)
    positions = np.concatenate(motif)
    species = rng.choice([8, 14, 22], len(motif))
    numbers = np.repeat(species, len(ops))
    return gen.Crystal("big " + name, [int(z) for z in numbers], lattice, positions).permuted(rng.permutation(len(positions)))


@case(quick=8, thorough=150)
def many_atoms(mon, rng, index):
    """Collective displacements of hundreds of atoms: every component is small."""
    name = list(GROUPS)[index % len(GROUPS)]
    crystal = big_crystal(rng, name, [200, 144, 320][index % 3])
    if index % 3 == 0:
        crystal = crystal.rotated(gen.rotation(rng))
    ref = crystal.ref()
    check_atoms(mon, ref, crystal)
    n = crystal.n
    first = np.zeros((n, 1))
    first[sorted(min(o) for o in crystal.orbits())] = 1
    for kind in ("odd", "even or odd", "generic"):
        if kind == "generic":
            u = rng.normal(size=(n, 3))
        else:
            # images are the displacement itself or its opposite
            u = rng.choice([-1.0, 1.0], (n, 3)) @ crystal.lattice * first
            odd = kind == "odd"
            for op in crystal.ops():
                v = gen.act(op, u)
                if np.abs(u * v).max() == 0:
                    u = u - v if odd or rng.random() < 0.5 else u + v
                    odd = False
        u = u / np.linalg.norm(u)
        try:
            check_equivalents(mon, ref, crystal, u, kind, rng)
            mon.event("collective displacements of many atoms")
        except Inconclusive as exc:
            mon.skip(str(exc))


@case(quick=24, thorough=300)
def not_crystals(mon, rng, index):
    """Structures without a symmetry are refused (a crash is seen by the supervisor)."""
    from ramannoodle.exceptions import SymmetryException
    from ramannoodle.structure import ReferenceStructure

    crystal = gen.describe(rng)
    lattice, positions = crystal.lattice.copy(), crystal.positions.copy()
    kind = ["positions", "lattice", "dependent", "zero vector", "zero"][index % 5]
    value = [np.nan, np.inf, -np.inf][int(rng.integers(3))]
    if kind == "positions":
        positions[rng.integers(crystal.n), rng.integers(3)] = value
    elif kind == "lattice":
        lattice[rng.integers(3), rng.integers(3)] = value
    elif kind == "dependent":
        i = int(rng.integers(3))
        lattice[i] = lattice[(i + 1) % 3]
    elif kind == "zero vector":
        lattice[rng.integers(3)] = 0.0
    else:
        lattice[:] = 0.0
    mon.raises((SymmetryException, ValueError), f"no crystal: {kind} ({value})", ReferenceStructure, list(crystal.numbers), lattice, positions)
    mon.event("refused")
    mon.nontrivial("not a crystal", kind, crystal.name, value)
