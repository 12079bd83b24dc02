"""Helpers that drive real polarizability models (used by several checks)."""

from __future__ import annotations

import warnings

import numpy as np

from rnmon import gen
from rnmon.core import Inconclusive, digest

warnings.filterwarnings("ignore", message=".*amplitude.*when usually.*")


def classes():
    from ramannoodle.pmodel import ARTModel, InterpolationModel

    return ARTModel, InterpolationModel


def refusals():
    """Documented errors for rejected specifications."""
    from ramannoodle.exceptions import InvalidDOFException, UserError

    return (InvalidDOFException, ValueError, TypeError, UserError, IndexError)


def atom_field(crystal, atom, direction):
    u = np.zeros((crystal.n, 3))
    u[atom] = direction
    return u


def moved(crystal, u):
    """Fractional positions after the Cartesian displacement u ((N,3) or (S,N,3))."""
    return crystal.positions + u @ np.linalg.inv(crystal.lattice)


def limit(crystal, u, part=0.45):
    """Largest factor keeping the displacement below `part` of the cell."""
    return part / np.abs(u @ np.linalg.inv(crystal.lattice)).max()


def limit_all(crystal, u, part):
    """As limit, for the displacement and all its symmetry images."""
    return min(limit(crystal, gen.act(op, u), part) for op in crystal.ops())


def predict(model, crystal, u):
    """Predictions for one field (N,3) or a batch (S,N,3) of Cartesian fields."""
    u = np.asarray(u, dtype=float)
    out = model.calc_polarizabilities(moved(crystal, u if u.ndim == 3 else u[None]))
    return out if u.ndim == 3 else out[0]


def state(model, probes=None):
    """Digest of everything observable of a model."""
    parts = [
        model.cart_basis_vectors,
        [(s.t, s.c, s.k) for s in model.interpolations],
        model.mask,
        model.ref_polarizability,
        model.is_dummy_model,
    ]
    if probes is not None and not model.is_dummy_model:
        parts.append(model.calc_polarizabilities(probes))
    return digest(parts)


def obliqueness(crystal, u, images=None):
    """(oblique, grey): images at angles other than 0/90/180, images near those."""
    imgs = np.array(images if images is not None else gen.images(crystal, u)).reshape(-1, u.size)
    imgs = imgs / np.linalg.norm(imgs, axis=1)[:, None]
    cos = np.abs(imgs @ imgs.T)
    grey = (((cos > 1e-7) & (cos < 1e-3)) | ((cos > 1 - 1e-3) & (cos < 1 - 1e-9))).any()
    oblique = ((cos >= 1e-3) & (cos <= 1 - 1e-3)).any()
    return bool(oblique), bool(grey)


def span(basis, n):
    """Orthonormal rows spanning the given basis vectors."""
    if not len(basis):
        return np.zeros((0, 3 * n))
    return np.array(basis).reshape(len(basis), -1)


def amplitudes_for(crystal, u, order, rng, small=True, extra=0):
    """Amplitudes giving enough distinct points after symmetry; reference not included."""
    negative = gen.has_negative(crystal, u)
    top = limit(crystal, u, 0.4)
    scale = min(top, 0.1 if small else top)
    points = order + 1 + extra
    if negative:
        count = -(-points // 2)
        return scale * np.linspace(1 / count, 1, count) * rng.uniform(0.9, 1.0), True
    half = -(-points // 2)
    grid = np.linspace(1 / half, 1, half) * rng.uniform(0.9, 1.0)
    amps = scale * np.concatenate([grid, -grid * rng.uniform(0.8, 0.95)])
    return rng.permutation(amps), False


def _pool(crystal, atom, rng, safe):
    """Distinct candidate lines for an atom; those without oblique images first."""
    lines = []
    for d in gen.directions_for(crystal, atom, rng):
        if not any(abs(d @ e) > 1 - 1e-9 for e in lines):
            lines.append(d)
    if not safe:
        return [lines[i] for i in rng.permutation(len(lines))]
    flags = [obliqueness(crystal, atom_field(crystal, atom, d)) for d in lines]
    keep = [i for i in range(len(lines)) if not flags[i][1]]
    order = sorted(keep, key=lambda i: (flags[i][0], rng.random()))
    return [lines[i] for i in order]


def complete(crystal, response, rng, art=True, order=1, record=None, alpha=None, dummy=False, collective=False, limit_dofs=None):
    """Specify inequivalent displacements until every direction is covered.

    ``record`` collects the arguments of the accepted calls.
    """
    for attempt in range(4):
        taken = []
        model = _complete(crystal, response, rng, art, order, taken, alpha or response.alpha, dummy, collective and attempt == 0, limit_dofs, attempt > 0 or rng.random() < 0.6)
        if model is not None:
            if record is not None:
                record.extend(taken)
            return model
    raise Inconclusive("no complete set of directions found")


def _complete(crystal, response, rng, art, order, taken, alpha, dummy, collective, limit_dofs, safe):
    art_class, interp_class = classes()
    InvalidDOF = refusals()[0]
    model = (art_class if art else interp_class)(crystal.ref(), response.ref.copy(), is_dummy_model=dummy)
    reps = [sorted(o)[int(rng.integers(len(o)))] for o in crystal.orbits()]
    reps = [reps[i] for i in rng.permutation(len(reps))]
    want = 3 * crystal.n
    pools = {}
    basis = span([], crystal.n)
    for sweep in range(4):
        for atom in reps if sweep < 3 else range(crystal.n):
            if atom not in pools or not safe:
                pools[atom] = _pool(crystal, atom, rng, safe)
            for direction in pools[atom] + [gen.rotation(rng)[0] for _ in range(2)]:
                if len(basis) == want or (limit_dofs and len(basis) >= limit_dofs):
                    return model
                u = atom_field(crystal, atom, direction)
                if collective:
                    for other in range(crystal.n):
                        if other != atom and rng.random() < 0.4:
                            u[other] = rng.normal(size=3) * 0.5
                flat = u.ravel() - basis.T @ (basis @ u.ravel())
                if np.linalg.norm(flat) < 0.2:
                    continue
                u = flat.reshape(u.shape) / np.linalg.norm(flat)
                if not collective:
                    single = atom_field(crystal, atom, u[atom])
                    if np.linalg.norm(u - single) > 1e-6:
                        continue
                    u = single / np.linalg.norm(single)
                if obliqueness(crystal, u, gen.images(crystal, u))[1]:
                    continue  # undecided: tolerances of the code
                amps, _ = amplitudes_for(crystal, u, order, rng)
                pols = np.array([alpha(a * u) for a in amps])
                mag = float(rng.choice([1.0, 0.01, 37.0]))
                args = (int(atom), u[atom] * mag, amps, pols) if art else (u * mag, amps, pols, order, bool(rng.integers(2)))
                try:
                    (model.add_art if art else model.add_dof)(*args)
                except InvalidDOF:
                    continue
                taken.append(args)
                basis = span(model.cart_basis_vectors, crystal.n)
    return model if len(basis) == want else None
