"""P04: generated displaced structures."""

import os
import shutil
import tempfile
from pathlib import Path

import numpy as np

from rnmon import elements, gen, genfiles
from rnmon.core import case

RULE = "distinct (crystal, direction, amplitude list) with a nonzero displacement, per generator (whole-structure, single-atom, written files)"
ASSUMPTIONS = [
    "displacements are compared modulo lattice vectors, so amplitudes beyond half a cell are allowed",
    "positions are double precision fractions: deviations up to 1e-12 of a cell edge are rounding",
]
REQUIRED_EVENTS = ["structures", "files", "read back"]


def amplitudes(rng, index):
    kind = ["plain", "symmetric", "many", "repeat", "zero", "int", "large", "tiny", "reversed"][index % 9]
    if kind == "plain":
        return kind, rng.uniform(-0.5, 0.5, rng.integers(1, 6))
    if kind == "symmetric":
        a = rng.uniform(0.01, 0.3)
        return kind, np.array([-2 * a, -a, 0.0, a, 2 * a])
    if kind == "many":
        return kind, rng.uniform(-0.4, 0.4, int(rng.choice([255, 256, 257, 300, 513])))
    if kind == "repeat":
        a = rng.uniform(-0.4, 0.4, 3)
        return kind, np.concatenate([a, a])
    if kind == "zero":
        return kind, np.array([0.0, -0.0, 0.1])
    if kind == "int":
        return kind, np.array([1, -1, 0, 2])
    if kind == "large":
        return kind, rng.uniform(-40, 40, 5)
    if kind == "tiny":
        return kind, rng.uniform(-1, 1, 4) * 10.0 ** rng.integers(-9, -3, 4)
    return kind, np.linspace(0.5, -0.5, 11)[::-1][::2]


def scale_of(rng):
    return 10.0 ** float(rng.choice([0, 0, -8, 8, 3, -4]))


def verify(mon, crystal, cart_unit, amps, result, what):
    mon.check(isinstance(result, list) and len(result) == len(amps), f"{what}: one structure per amplitude", got=len(result), want=len(amps))
    inv = np.linalg.inv(crystal.lattice)
    for k, amp in enumerate(amps):
        pos = np.asarray(result[k])
        mon.check(pos.shape == (crystal.n, 3), f"{what}: shape", got=pos.shape)
        mon.check(np.isfinite(pos).all() and (pos >= 0).all() and (pos <= 1).all(), f"{what}: wrapped into the cell", pos=pos)
        want = crystal.positions + amp * cart_unit @ inv
        mon.close(
            gen.pdist(pos, want), 0, f"{what}: displacement equals the amplitude along the direction",
            rtol=0, atol=1e-11 + 2e-13 * np.abs(amp * cart_unit @ inv).max(), amplitude=amp, index=k, got_pos=pos, want_pos=want, crystal=crystal,
        )
        mon.event("structures")
    # results are independent arrays
    if len(result) > 1:
        keep = np.array(result[1])
        result[0][:] = 7.0
        mon.check(np.array_equal(result[1], keep), f"{what}: structures share memory")


@case(quick=70, thorough=4000)
def displaced(mon, rng, index):
    from ramannoodle.structure import get_displaced_positions

    crystal = gen.describe(rng) if index % 3 else gen.p1_crystal(rng)
    ref = crystal.ref()
    u = rng.normal(size=(crystal.n, 3))
    if crystal.n > 1 and rng.random() < 0.3:
        u[rng.integers(crystal.n)] = 0
    unit = u / np.linalg.norm(u)
    kind, amps = amplitudes(rng, index)
    arg = unit * scale_of(rng)
    if rng.random() < 0.3:
        arg = np.asfortranarray(arg)
    result = get_displaced_positions(ref, arg, amps)
    verify(mon, crystal, unit, amps, result, "get_displaced_positions")
    mon.check(np.array_equal(ref.positions, crystal.positions), "reference unchanged")
    mon.nontrivial("displaced", crystal.name, u, amps)
    mon.sample(crystal=crystal.name, kind=kind, amplitudes=amps)
    # integer-valued direction
    v = rng.integers(-2, 3, (crystal.n, 3))
    if np.any(v):
        verify(mon, crystal, v / np.linalg.norm(v), amps[:3], get_displaced_positions(ref, v, amps[:3]), "integer displacement")
    if crystal.n > 1:
        mon.raises((ValueError, TypeError), "wrong atom count refused", get_displaced_positions, ref, rng.normal(size=(crystal.n + 1, 3)), amps)
    mon.raises((ValueError, TypeError), "list amplitudes refused", get_displaced_positions, ref, u, [[0.1]])


@case(quick=70, thorough=4000)
def single_atom(mon, rng, index):
    from ramannoodle.structure import get_ast_displaced_positions

    crystal = gen.describe(rng) if index % 3 else gen.p1_crystal(rng)
    ref = crystal.ref()
    atom = int(rng.integers(crystal.n))
    d = rng.normal(size=3) if rng.random() < 0.6 else np.eye(3)[rng.integers(3)]
    unit = d / np.linalg.norm(d)
    kind, amps = amplitudes(rng, index)
    named = np.int64(atom) if rng.random() < 0.3 else atom
    result = get_ast_displaced_positions(ref, named, unit * scale_of(rng), amps)
    field = np.zeros((crystal.n, 3))
    field[atom] = unit
    others = [k for k in range(crystal.n) if k != atom]
    for pos in result:
        mon.close(gen.pdist(pos[others], crystal.positions[others]), 0, "only the named atom moves", rtol=0, atol=1e-14, atom=atom)
    verify(mon, crystal, field, amps, result, "get_ast_displaced_positions")
    mon.nontrivial("ast", crystal.name, atom, d, amps)
    mon.sample(crystal=crystal.name, atom=atom, direction=d, amplitudes=amps)
    for bad in (crystal.n, crystal.n + 5):
        mon.raises(IndexError, "atom index out of range refused", get_ast_displaced_positions, ref, bad, d, amps)
    mon.raises((ValueError, TypeError), "wrong direction shape refused", get_ast_displaced_positions, ref, atom, rng.normal(size=2), amps)


def grouped(crystal):
    order = sorted(range(crystal.n), key=lambda k: crystal.numbers[k])
    return crystal.permuted(order)


@case(quick=50, thorough=2000)
def written(mon, rng, index):
    from ramannoodle.structure import (
        write_ast_displaced_structures,
        write_displaced_structures,
    )
    from ramannoodle.pmodel import InterpolationModel

    crystal = grouped(gen.describe(rng) if index % 3 else gen.p1_crystal(rng))
    ref = crystal.ref()
    kind, amps = amplitudes(rng, index)
    if kind in ("many",):
        amps = amps[: 20 if index % 4 else 300]
    ast = bool(index % 2)
    atom = int(rng.integers(crystal.n))
    if ast:
        d = rng.normal(size=3)
        field = np.zeros((crystal.n, 3))
        field[atom] = d / np.linalg.norm(d)
        writer, args = write_ast_displaced_structures, (ref, atom, d * scale_of(rng))
    else:
        u = rng.normal(size=(crystal.n, 3))
        field = u / np.linalg.norm(u)
        writer, args = write_displaced_structures, (ref, u * scale_of(rng))
    fmt = ["poscar", "xdatcar"][int(rng.integers(2))]
    folder = tempfile.mkdtemp(prefix="rnmon_p04_")
    try:
        names = [os.path.join(folder, f"s{k:04d}") for k in rng.permutation(len(amps))]
        if len(amps) == 1 and rng.random() < 0.7:
            paths = names[0] if rng.random() < 0.5 else Path(names[0])
        else:
            paths = [Path(n) if rng.random() < 0.5 else n for n in names]
        overwrite = rng.random() < 0.4
        if overwrite:
            for n in names[::2]:
                Path(n).write_text("old content\n" * 400)
        writer(*args, amps, paths, fmt, overwrite=True) if overwrite else writer(*args, amps, paths, fmt)
        mon.same(sorted(os.listdir(folder)), sorted(os.path.basename(n) for n in names), "exactly the named files are written")
        inv = np.linalg.inv(crystal.lattice)
        for k, amp in enumerate(amps):
            _, lattice, symbols, frames = genfiles.parse_poscar(Path(names[k]).read_text())
            mon.check(len(frames) == 1, "one structure per file")
            mon.close(lattice, crystal.lattice, "lattice unchanged in file", rtol=1e-13, atol=1e-13)
            mon.same([elements.NUMBER[s] for s in symbols], crystal.numbers, "elements unchanged in file")
            mon.close(gen.pdist(frames[0], crystal.positions + amp * field @ inv), 0, "i-th file holds the i-th structure", rtol=0,
                      atol=1e-11 + 2e-13 * np.abs(amp * field @ inv).max(), index=k, amplitude=amp)
            mon.event("files")
        mon.nontrivial("written", crystal.name, ast, fmt, amps)
        mon.sample(crystal=crystal.name, ast=ast, format=fmt, kind=kind, files=len(amps))
        # wrong number of paths: refused
        extra = [os.path.join(folder, "extra%d" % k) for k in range(len(amps) + 1)]
        before = sorted(os.listdir(folder))
        mon.raises(ValueError, "too many paths refused", writer, *args, amps, extra, fmt)
        if len(amps) > 1:
            mon.raises(ValueError, "too few paths refused", writer, *args, amps, extra[: len(amps) - 1], fmt)
        mon.same(sorted(os.listdir(folder)), before, "refused request writes nothing")
        # files not to be overwritten are kept
        if not overwrite:
            mon.raises(FileExistsError, "existing files kept", writer, *args, amps, names, fmt)
        # the written set can be read back into the same amplitudes
        if kind in ("plain", "symmetric") and np.abs(amps).min() > 0.005 or kind == "symmetric":
            use = [k for k, a in enumerate(amps) if abs(a) > 0.005]
            sel = [names[k] for k in use]
            model = InterpolationModel(ref, np.zeros((3, 3)), is_dummy_model=True)
            try:
                model.add_dof_from_files(sel, fmt, 1)
            except Exception as exc:  # symmetric images may make the set redundant
                if type(exc).__name__ != "InvalidDOFException":
                    raise
                mon.skip("redundant set refused")
                return
            base = model.cart_basis_vectors
            mon.check(len(base) >= 1, "written set read back")
            mon.close(abs(np.sum(base[0] * field)), 1.0, "read-back direction", rtol=0, atol=1e-5)
            mon.event("read back")
    finally:
        shutil.rmtree(folder)


@case(quick=25, thorough=600)
def roundtrip(mon, rng, index):
    """Written files carry the amplitudes: a model built from them shows them."""
    from ramannoodle.io import generic
    from ramannoodle.structure import write_ast_displaced_structures
    from ramannoodle.structure.utils import calc_displacement

    crystal = grouped(gen.describe(rng))
    ref = crystal.ref()
    atom = int(rng.integers(crystal.n))
    d = rng.normal(size=3)
    d /= np.linalg.norm(d)
    # stay below half a cell in every fractional component
    limit = 0.45 / np.abs(d @ np.linalg.inv(crystal.lattice)).max()
    amps = rng.uniform(-1, 1, 5) * min(limit, 1.0)
    folder = tempfile.mkdtemp(prefix="rnmon_p04_")
    try:
        names = [os.path.join(folder, f"f{k}") for k in range(len(amps))]
        write_ast_displaced_structures(ref, atom, d, amps, names, "poscar")
        for name, amp in zip(names, amps):
            pos = generic.read_positions(name, "poscar")
            cart = ref.get_cart_displacement(calc_displacement(ref.positions, pos))
            mon.close(cart[atom], amp * d, "read-back displacement is the requested one", rtol=0, atol=1e-9)
            cart[atom] = 0
            mon.close(cart, 0 * cart, "other atoms at rest", rtol=0, atol=1e-9)
            mon.event("read back")
        mon.nontrivial("roundtrip", crystal.name, atom, amps)
    finally:
        shutil.rmtree(folder)
