"""Workload generators and independent ground truth for crystals.

Nothing in here uses ramannoodle.  Symmetry operations are found by brute force
(lattice isometries x candidate translations), independently of spglib and of the
code under test.  Row-vector convention throughout: cart = frac @ lattice.
"""

from __future__ import annotations

import itertools

import numpy as np

SQ3 = np.sqrt(3.0)


def wrap(x):
    """Wrap to [0,1) (ground truth)."""
    y = x - np.floor(x)
    return np.where(y >= 1.0, 0.0, y)


def minimg(d):
    """Component-wise minimum image in (-1/2,1/2] (ground truth)."""
    y = d - np.floor(d)
    return np.where(y > 0.5, y - 1.0, y)


def pdist(a, b):
    """Largest periodic component-wise distance between two position arrays."""
    d = np.asarray(a) - np.asarray(b)
    return float(np.max(np.abs(d - np.rint(d)))) if d.size else 0.0


class Crystal:
    """Atomic numbers, lattice (rows) and fractional positions."""

    def __init__(self, name, numbers, lattice, positions):
        self.name = name
        self.numbers = [int(n) for n in numbers]
        self.lattice = np.array(lattice, dtype=float)
        self.positions = np.array(positions, dtype=float).reshape(-1, 3)
        self._ops = None

    @property
    def n(self):
        return len(self.numbers)

    def __repr__(self):
        return (
            f"Crystal({self.name}, numbers={self.numbers}, "
            f"lattice={self.lattice.tolist()}, positions={self.positions.tolist()})"
        )

    def ref(self, **kw):
        """Build the ramannoodle ReferenceStructure."""
        from ramannoodle.structure import ReferenceStructure

        return ReferenceStructure(
            list(self.numbers), self.lattice.copy(), self.positions.copy(), **kw
        )

    # -- independent symmetry search --------------------------------------
    def ops(self, tol=1e-4):
        """All symmetry operations as (W, t, W_cart, perm).

        x' = x @ W + t (mod 1);  u'_cart = u_cart @ W_cart;
        atom k is carried onto atom perm[k].
        """
        if self._ops is None:
            self._ops = _find_ops(self, tol)
        return self._ops

    def orbits(self):
        """Partition of the atoms into symmetry orbits (set of frozensets)."""
        orb = [set([k]) for k in range(self.n)]
        result = set()
        for k in range(self.n):
            result.add(frozenset(op[3][k] for op in self.ops()))
        del orb
        return result

    # -- re-descriptions ---------------------------------------------------
    def rotated(self, rot):
        """Rigid rotation (rows: x' = x @ rot)."""
        return Crystal(self.name + "+rot", self.numbers, self.lattice @ rot, self.positions)

    def shifted(self, shift):
        return Crystal(
            self.name + "+shift", self.numbers, self.lattice, wrap(self.positions + shift)
        )

    def permuted(self, order):
        return Crystal(
            self.name + "+perm",
            [self.numbers[i] for i in order],
            self.lattice,
            self.positions[list(order)],
        )

    def recell(self, m):
        """New lattice vectors = m @ lattice (integer m, |det| >= 1)."""
        m = np.array(m, dtype=int)
        new_lattice = m @ self.lattice
        inv = np.linalg.inv(m)
        volume = int(abs(round(np.linalg.det(m))))
        reach = int(np.abs(m).sum()) + 1
        numbers, positions, origin = [], [], []
        for k in range(self.n):
            found = []
            for shift in itertools.product(range(-reach, reach + 1), repeat=3):
                x = (self.positions[k] + np.array(shift)) @ inv
                x = np.where(np.abs(x) < 1e-9, 0.0, x)
                if ((x >= -1e-9) & (x < 1 - 1e-9)).all():
                    if all(pdist(x, y) > 1e-6 for y in found):
                        found.append(x)
            assert len(found) == volume, (len(found), volume)
            numbers += [self.numbers[k]] * volume
            positions += found
            origin += [k] * volume
        result = Crystal(self.name + "+cell", numbers, new_lattice, positions)
        result.origin = origin
        return result


def _find_ops(crystal, tol):
    lattice = crystal.lattice
    metric = lattice @ lattice.T
    lengths = np.diag(metric)
    # lattice vectors of length |a_i|: coefficient j is bounded by |a_i| * |a*_j|
    longest = np.sqrt(lengths.max())
    reach = np.floor(
        longest * np.linalg.norm(np.linalg.inv(lattice), axis=0) * (1 + 1e-6)
    ).astype(int)
    grid = np.meshgrid(*[np.arange(-r, r + 1) for r in reach], indexing="ij")
    cand = np.stack(grid, axis=-1).reshape(-1, 3)
    norms = np.einsum("ij,jk,ik->i", cand, metric, cand)
    rows = [
        cand[np.abs(norms - lengths[a]) < 1e-4 * lengths[a]] for a in range(3)
    ]
    rotations = []
    scale = max(lengths)
    for r0 in rows[0]:
        for r1 in rows[1]:
            if abs(r0 @ metric @ r1 - metric[0, 1]) > 1e-4 * scale:
                continue
            for r2 in rows[2]:
                w = np.array([r0, r1, r2])
                if np.abs(w @ metric @ w.T - metric).max() < 1e-4 * scale:
                    rotations.append(w)
    numbers = np.array(crystal.numbers)
    pos = crystal.positions
    species, counts = np.unique(numbers, return_counts=True)
    rare = species[np.argmin(counts)]
    rare_idx = np.where(numbers == rare)[0]
    k0 = rare_idx[0]
    inv = np.linalg.inv(lattice)
    ops = []
    for w in rotations:
        rotated = pos @ w
        for j in rare_idx:
            t = pos[j] - rotated[k0]
            moved = rotated + t
            d = moved[:, None, :] - pos[None, :, :]
            d = d - np.rint(d)
            dist = np.linalg.norm(d @ lattice, axis=-1)
            dist[numbers[:, None] != numbers[None, :]] = np.inf
            perm = np.argmin(dist, axis=1)
            if (dist[np.arange(len(pos)), perm] < tol).all() and len(
                set(perm.tolist())
            ) == len(pos):
                # refine translation over all atoms
                dd = pos[perm] - rotated
                t = t + np.mean((dd - t) - np.rint(dd - t), axis=0)
                ops.append((w, wrap(t), inv @ w @ lattice, perm.tolist()))
    return ops


# ---------------------------------------------------------------- base crystals
def _cub(a):
    return np.eye(3) * a


def _hex(a, c):
    return np.array([[a, 0, 0], [-a / 2, a * SQ3 / 2, 0], [0, 0, c]])


def _base():
    c = []
    add = lambda *args: c.append(Crystal(*args))
    add("sc", [26], _cub(3.0), [[0, 0, 0]])
    add("cscl", [55, 17], _cub(4.1), [[0, 0, 0], [0.5, 0.5, 0.5]])
    add(
        "nacl_prim",
        [11, 17],
        2.8 * np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0.0]]),
        [[0, 0, 0], [0.5, 0.5, 0.5]],
    )
    add(
        "sto",
        [38, 22, 8, 8, 8],
        _cub(3.9),
        [[0, 0, 0], [0.5, 0.5, 0.5], [0.5, 0.5, 0], [0.5, 0, 0.5], [0, 0.5, 0.5]],
    )
    add(
        "diamond_prim",
        [6, 6],
        3.57 / 2 * np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0.0]]),
        [[0, 0, 0], [0.25, 0.25, 0.25]],
    )
    add(
        "zincblende_prim",
        [30, 16],
        5.4 / 2 * np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0.0]]),
        [[0, 0, 0], [0.25, 0.25, 0.25]],
    )
    u = 0.305
    add(
        "rutile",
        [22] * 2 + [8] * 4,
        np.diag([4.59, 4.59, 2.96]),
        [
            [0, 0, 0],
            [0.5, 0.5, 0.5],
            [u, u, 0],
            [1 - u, 1 - u, 0],
            [0.5 + u, 0.5 - u, 0.5],
            [0.5 - u, 0.5 + u, 0.5],
        ],
    )
    z = 0.2081
    a, cc = 3.78, 9.51
    add(  # anatase, primitive body-centred tetragonal cell
        "anatase_prim",
        [22] * 2 + [8] * 4,
        np.array([[-a, a, cc], [a, -a, cc], [a, a, -cc]]) / 2,
        _to_prim(
            [[0, 0, 0], [0, 0.5, 0.25], [0, 0, z], [0, 0, -z], [0, 0.5, 0.25 + z], [0, 0.5, 0.25 - z]],
            np.diag([a, a, cc]),
            np.array([[-a, a, cc], [a, -a, cc], [a, a, -cc]]) / 2,
        ),
    )
    add("tet_polar", [82, 22, 8], np.diag([3.9, 3.9, 4.15]), [[0, 0, 0], [0.5, 0.5, 0.54], [0.5, 0.5, 0.1]])
    # P4 : chiral tetragonal, no mirrors (fourfold only)
    g = []
    for (x, y, zz) in [(0.13, 0.29, 0.2)]:
        g += [[x, y, zz], [-x, -y, zz], [-y, x, zz], [y, -x, zz]]
    add("p4", [8] * 4 + [14], np.diag([5.1, 5.1, 4.2]), np.array(g + [[0, 0, 0.61]]))
    # P4_1: screw axis
    g = [[0.13, 0.29, 0.07]]
    x, y, zz = g[0]
    add(
        "p41",
        [34] * 4,
        np.diag([5.3, 5.3, 6.1]),
        [[x, y, zz], [-x, -y, zz + 0.5], [-y, x, zz + 0.25], [y, -x, zz + 0.75]],
    )
    add("hcp", [12] * 2, _hex(3.2, 5.2), [[1 / 3, 2 / 3, 0.25], [2 / 3, 1 / 3, 0.75]])
    add(
        "wurtzite",
        [30] * 2 + [8] * 2,
        _hex(3.25, 5.2),
        [[1 / 3, 2 / 3, 0], [2 / 3, 1 / 3, 0.5], [1 / 3, 2 / 3, 0.382], [2 / 3, 1 / 3, 0.882]],
    )
    add(
        "hbn_like",
        [5, 7],
        _hex(2.5, 6.6),
        [[1 / 3, 2 / 3, 0.5], [2 / 3, 1 / 3, 0.5]],
    )
    # P3 : threefold axis only
    x, y, zz = 0.21, 0.37, 0.15
    add(
        "p3",
        [16] * 3 + [49],
        _hex(5.0, 4.4),
        [[x, y, zz], [-y, x - y, zz], [y - x, -x, zz], [0, 0, 0.58]],
    )
    # P3_121-type (alpha quartz like): Si 3a, O 6c
    s = 0.4697
    ox, oy, oz = 0.4135, 0.2669, 0.1191
    si = [[s, 0, 1 / 3], [0, s, 2 / 3], [-s, -s, 0]]
    o = [
        [ox, oy, oz + 0],
        [-oy, ox - oy, oz + 1 / 3],
        [oy - ox, -ox, oz + 2 / 3],
        [oy, ox, -oz],
        [ox - oy, -oy, -oz + 2 / 3],
        [-ox, oy - ox, -oz + 1 / 3],
    ]
    add("p3121", [14] * 3 + [8] * 6, _hex(4.91, 5.4), np.array(si + o))
    # P6 : sixfold axis, no mirrors
    g = []
    x, y, zz = 0.15, 0.34, 0.2
    for w in [(x, y), (-y, x - y), (y - x, -x)]:
        g += [[w[0], w[1], zz], [-w[0], -w[1], zz]]
    add("p6", [9] * 6 + [57], _hex(6.2, 4.1), np.array(g + [[0, 0, 0.71]]))
    # rhombohedral (R-3m): primitive rhombohedral cell
    a, al = 4.5, np.deg2rad(57.0)
    add("rhombo", [83, 34, 34], _rhomb(a, al), [[0, 0, 0], [0.22, 0.22, 0.22], [-0.22, -0.22, -0.22]])
    # R3 polar rhombohedral
    add("rhombo_polar", [41, 8, 3], _rhomb(5.1, np.deg2rad(63.0)), [[0, 0, 0], [0.31, 0.31, 0.31], [0.77, 0.77, 0.77]])
    # orthorhombic Pmmm
    add("ortho", [56, 8], np.diag([3.1, 4.3, 5.2]), [[0, 0, 0], [0.5, 0.5, 0.5]])
    # orthorhombic Pnma-like
    x, zz = 0.18, 0.06
    add(
        "pnma",
        [32] * 4,
        np.diag([4.4, 3.8, 10.8]),
        [[x, 0.25, zz], [0.5 - x, 0.75, 0.5 + zz], [-x, 0.75, -zz], [0.5 + x, 0.25, 0.5 - zz]],
    )
    # C-centred orthorhombic primitive cell
    add("cmmm_prim", [52, 8], np.array([[2.1, -3.3, 0], [2.1, 3.3, 0], [0, 0, 4.7]]), [[0, 0, 0], [0.5, 0.5, 0.3]])
    # monoclinic P2/m-like and P2_1/c-like
    mono = np.array([[4.2, 0, 0], [0, 5.1, 0], [-1.3, 0, 6.0]])
    add("p2m", [40, 8, 8], mono, [[0, 0, 0], [0.27, 0.5, 0.36], [-0.27, 0.5, -0.36]])
    x, y, zz = 0.21, 0.13, 0.34
    add(
        "p21c",
        [20] * 4,
        mono * 1.2,
        [[x, y, zz], [-x, 0.5 + y, 0.5 - zz], [-x, -y, -zz], [x, 0.5 - y, 0.5 + zz]],
    )
    # monoclinic P2 with unique axis b, general atoms
    add("p2", [7, 7, 15], mono, [[x, y, zz], [-x, y, -zz], [0, 0.6, 0]])
    # monoclinic Pm
    add("pm", [7, 7, 15], mono, [[0.2, 0.21, 0.3], [0.2, -0.21, 0.3], [0.65, 0.0, 0.1]])
    # triclinic P-1 and P1
    tri = np.array([[4.1, 0, 0], [0.9, 4.8, 0], [-0.7, 1.1, 5.3]])
    add("p-1", [29, 8, 8], tri, [[0, 0, 0], [0.23, 0.41, 0.17], [-0.23, -0.41, -0.17]])
    add("p1", [29, 8], tri * 0.9, [[0.05, 0.1, 0.2], [0.43, 0.61, 0.57]])
    add("p1_three", [35, 17, 9], tri * 1.05, [[0.05, 0.1, 0.2], [0.43, 0.61, 0.57], [0.8, 0.3, 0.9]])
    for crystal in c:
        crystal.positions = wrap(crystal.positions)
    return {x.name: x for x in c}


def _rhomb(a, al):
    ca = np.cos(al)
    tx = np.sqrt((1 - ca) / 2)
    ty = np.sqrt((1 - ca) / 6)
    tz = np.sqrt((1 + 2 * ca) / 3)
    return a * np.array([[tx, -ty, tz], [0, 2 * ty, tz], [-tx, -ty, tz]])


def _to_prim(positions, conv, prim):
    return (np.array(positions) @ conv) @ np.linalg.inv(prim)


BASE = _base()
NAMES = list(BASE)

# Expected orders of the space group modulo lattice translations (sanity of the oracle)
KNOWN_ORDERS = {
    "sc": 48, "cscl": 48, "nacl_prim": 48, "sto": 48, "diamond_prim": 48,
    "zincblende_prim": 24, "rutile": 16, "anatase_prim": 16, "tet_polar": 8,
    "p4": 4, "p41": 4, "hcp": 24, "wurtzite": 12, "hbn_like": 12, "p3": 3,
    "p3121": 6, "p6": 6, "rhombo": 12, "rhombo_polar": 6, "ortho": 8,
    "p1": 1, "p1_three": 1, "p-1": 2,
}


# ---------------------------------------------------------------- random pieces
def rotation(rng, improper=False):
    """Random proper (or improper) rotation matrix."""
    q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[0] *= -1
    return -q if improper else q


def unimodular(rng, steps=2):
    """Random integer matrix with determinant +1 and small entries."""
    m = np.eye(3, dtype=int)
    for _ in range(steps):
        i, j = rng.choice(3, 2, replace=False)
        e = np.eye(3, dtype=int)
        e[i, j] = rng.choice([-1, 1])
        m = e @ m
    return m


def supercell_matrix(rng, max_volume=2):
    m = np.eye(3, dtype=int)
    if max_volume >= 2:
        m[rng.integers(3), :] *= 1
        k = rng.integers(3)
        m[k, k] = 2
    return m


def lattice(rng, kind=None):
    """Random lattices: skewed, left-handed, long and short axes."""
    kind = kind or rng.choice(["skew", "ortho", "left", "aspect", "rot", "tiny", "huge"])
    while True:
        if kind == "ortho":
            lat = np.diag(rng.uniform(2, 9, 3))
        else:
            lat = np.diag(rng.uniform(2.5, 8, 3)) + rng.uniform(-2, 2, (3, 3))
        if kind == "aspect":
            lat = np.diag(rng.choice([0.3, 1.0, 12.0], 3)) @ lat
        if kind == "left":
            lat = lat[[1, 0, 2]]
        if kind == "rot":
            lat = lat @ rotation(rng)
        if kind == "tiny":
            lat = lat * 0.2
        if kind == "huge":
            lat = lat * 10
        if kind == "big":
            lat = (lat * 4) @ rotation(rng)
        vol = abs(np.linalg.det(lat)) / np.prod(np.linalg.norm(lat, axis=1))
        if vol > 0.15:
            return lat


def describe(rng, name=None, max_atoms=12, recell=True, rot=True, shift=True, perm=True):
    """Random re-description of a random base crystal."""
    crystal = BASE[name or rng.choice(NAMES)]
    if recell and rng.random() < 0.5:
        m = unimodular(rng, rng.integers(1, 3))
        crystal = crystal.recell(m)
    if recell and rng.random() < 0.25 and crystal.n * 2 <= max_atoms:
        crystal = crystal.recell(supercell_matrix(rng))
    if rot and rng.random() < 0.6:
        crystal = crystal.rotated(rotation(rng))
    if shift and rng.random() < 0.5:
        crystal = crystal.shifted(rng.random(3))
    if perm and rng.random() < 0.5:
        crystal = crystal.permuted(rng.permutation(crystal.n))
    return crystal


def p1_crystal(rng, n=None, kind=None):
    """Random crystal without symmetry (well separated, distinct elements mixed)."""
    n = n or int(rng.integers(2, 6))
    while True:
        lat = lattice(rng, kind or rng.choice(["skew", "ortho", "left", "rot"]))
        pos = rng.random((n, 3))
        numbers = sorted(int(x) for x in rng.integers(1, 90, n))
        crystal = Crystal("random_p1", numbers, lat, pos)
        d = pos[:, None] - pos[None]
        d = (d - np.rint(d)) @ lat
        dist = np.linalg.norm(d, axis=-1) + 10 * np.eye(n)
        if dist.min() < 0.4:
            continue
        if len(crystal.ops()) == 1:
            return crystal


def sym_tensor(rng, scale=1.0):
    m = rng.normal(size=(3, 3)) * scale
    return (m + m.T) / 2


# ---------------------------------------------------------------- responses
def act(op, u):
    """Apply operation to a Cartesian displacement field (N,3)."""
    out = np.empty_like(u)
    out[op[3]] = u @ op[2]
    return out


def act_tensor(op, alpha):
    """Apply operation to a Cartesian rank-2 tensor."""
    w = op[2]
    return w.T @ alpha @ w


def act_inv(op, u):
    return u[op[3]] @ op[2].T


def act_tensor_inv(op, alpha):
    return op[2] @ alpha @ op[2].T


class Response:
    """Polarizability response alpha(u) with the full symmetry of the crystal.

    alpha(u) = alpha_ref + sum_k c_k * P_k(u), obtained by averaging an arbitrary
    polynomial response over the symmetry group.
    """

    def __init__(self, crystal, rng, degree=1):
        self.crystal = crystal
        self.ops = crystal.ops()
        n = crystal.n
        lin = rng.normal(size=(n, 3, 3, 3))
        lin = (lin + lin.transpose(0, 1, 3, 2)) / 2
        self.lin = self._average(lin)
        self.degree = degree
        self.quad_v = rng.normal(size=(4, n, 3))
        self.quad_t = [sym_tensor(rng) for _ in range(4)]
        ref = sym_tensor(rng) + 4 * np.eye(3)
        self.ref = np.mean([act_tensor(op, ref) for op in self.ops], axis=0)

    def _average(self, lin):
        # lin[k,d,i,j]: alpha_ij += u_kd lin
        total = np.zeros_like(lin)
        for op in self.ops:
            w, perm = op[2], op[3]
            # alpha(u) -> g . alpha0(g^-1 u)
            t = np.einsum("kdij,da->kaij", lin, w)
            t = np.einsum("kaij,im,jn->kamn", t, w, w)
            moved = np.empty_like(t)
            moved[perm] = t
            total += moved
        return total / len(self.ops)

    def linear(self, u):
        return np.einsum("kd,kdij->ij", u, self.lin)

    def _raw_nonlinear(self, u):
        out = np.zeros((3, 3))
        for v, t in zip(self.quad_v, self.quad_t):
            out += float(np.sum(v * u)) ** 2 * t
        if self.degree >= 3:
            for v, t in zip(self.quad_v, self.quad_t):
                out += float(np.sum(v * u)) ** 3 * (t @ t)
        return out

    def delta(self, u):
        out = self.linear(u)
        if self.degree >= 2:
            out = out + np.mean(
                [
                    act_tensor(op, self._raw_nonlinear(act_inv(op, u)))
                    for op in self.ops
                ],
                axis=0,
            )
        return out

    def alpha(self, u):
        return self.ref + self.delta(u)


# ---------------------------------------------------------------- model building
def images(crystal, u):
    """All distinct symmetry images of a displacement field."""
    out = []
    for op in crystal.ops():
        v = act(op, u)
        if not any(np.allclose(v, w, atol=1e-7 * (1 + np.abs(u).max())) for w in out):
            out.append(v)
    return out


def has_negative(crystal, u):
    """Whether some operation carries u to -u."""
    return any(np.allclose(v, -u, atol=1e-7 * np.abs(u).max()) for v in images(crystal, u))


def directions_for(crystal, atom, rng):
    """Candidate displacement directions for an atom: symmetry-adapted ones first."""
    pool = []
    for op in crystal.ops():
        if op[3][atom] != atom:
            continue
        w = op[2]
        vals, vecs = np.linalg.eig(w.T)
        for val, vec in zip(vals, vecs.T):
            if abs(val.imag) < 1e-8 and np.abs(vec.imag).max() < 1e-8:
                pool.append(vec.real)
    frame = rotation(rng)
    pool += list(np.eye(3)) + list(crystal.lattice) + list(frame)
    return [p / np.linalg.norm(p) for p in pool]
