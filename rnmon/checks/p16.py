"""P16: structures and trajectories survive writing and reading back."""

import os
import shutil
import tempfile
from pathlib import Path

import numpy as np

from rnmon import elements, gen, genfiles
from rnmon.core import case

RULE = "distinct (structure or trajectory, label kind, interface) written and read back"
ASSUMPTIONS = ["12 significant decimals: positions and lattice compared to 1e-12 relative to one / to the cell edge"]
REQUIRED_EVENTS = ["structures", "trajectories", "rewritten", "refusals"]

LABELS = [
    None, "", "system", "two words  spaced", " leading blank", "trailing ", "üñí ∆ 日本", "with 'single' quotes",
    'with "double" quotes', "both ' and \"", "back\\slash \\n", "line\nbreak", "cr\r\nlf", "tab\tbed", "form\x0cfeed", "\x85nel \u2028 ls",
    "Direct", "1.0", "x" * 500, "\x00nul", "{braces} %s %d", "\ud800 surrogate", "\x1c\x1d sep",
]


def structure(rng, index):
    """(lattice, numbers grouped by species, positions in [0,1])."""
    regime = ["few", "many species", "long", "faces", "tiny lattice", "big lattice", "single", "all"][index % 8]
    if regime == "many species":
        numbers = list(rng.permutation(np.arange(1, 119))[: rng.integers(10, 60)])
        counts = rng.integers(1, 3, len(numbers))
    elif regime == "all":
        numbers, counts = list(rng.permutation(np.arange(1, 119))), np.ones(118, int)
    elif regime == "long":
        numbers = list(rng.integers(1, 119, 1))
        counts = [int(rng.choice([99, 256, 257, 1000, 1201]))]
    elif regime == "single":
        numbers, counts = [int(rng.integers(1, 119))], [1]
    else:
        numbers = list(rng.permutation(np.arange(1, 119))[: rng.integers(1, 5)])
        counts = rng.integers(1, 9, len(numbers))
    listing = [int(z) for z, c in zip(numbers, counts) for _ in range(c)]
    n = len(listing)
    pos = rng.random((n, 3))
    if regime == "faces":
        special = np.array([0.0, 1.0, 1e-17, 1 - 1e-16, 1e-12, 5e-324, 0.9999999999999999, 1 / 3])
        mask = rng.random((n, 3)) < 0.6
        pos[mask] = rng.choice(special, int(mask.sum()))
    lattice = gen.lattice(rng)
    if regime == "tiny lattice":
        lattice = lattice * 1e-3
    if regime == "big lattice":
        lattice = lattice * 1234.567
    return regime, lattice, listing, pos


def near(mon, got, want, what, scale=1.0):
    mon.close(got, want, what, rtol=1e-12, atol=1e-13 * scale)


@case(quick=80, thorough=4000)
def structures(mon, rng, index):
    from ramannoodle.io import generic
    from ramannoodle.io.vasp import poscar

    regime, lattice, numbers, pos = structure(rng, index)
    label = LABELS[int(rng.integers(len(LABELS)))]
    folder = tempfile.mkdtemp(prefix="rnmon_p16_")
    try:
        path = os.path.join(folder, "file name.é")
        arg = Path(path) if rng.random() < 0.5 else path
        lat = np.asfortranarray(lattice) if rng.random() < 0.3 else lattice
        p = pos[::-1][::-1] if rng.random() < 0.3 else pos
        use = int(rng.integers(4))
        if use == 0:
            kw = {} if label is None else {"label": label}
            poscar.write_structure(lat, numbers, p, arg, **kw)
        elif use == 1:
            generic.write_structure(lat, numbers, p, arg, "poscar")
        elif use == 2:
            generic.write_structure(lat, numbers, p, arg, "xdatcar", True)
        else:
            kw = {} if label is None else {"label": label}
            poscar.write_structure(lat, numbers, p, arg, overwrite=True, **kw)
        size = np.abs(lattice).max()
        # independent parser
        raw = Path(path).read_bytes()
        mon.check(raw.endswith(b"\n"), "complete last line")
        _, flat, fsym, frames = genfiles.parse_poscar(raw.decode("utf-8"))
        near(mon, flat, lattice, "lattice in file", size)
        mon.same([elements.NUMBER[s] for s in fsym], numbers, "elements in file")
        mon.check(len(frames) == 1, "one configuration")
        near(mon, frames[0], pos, "positions in file")
        # specific and generic readers, all consistent
        got = poscar.read_structure(arg)
        near(mon, got[0], lattice, "read_structure lattice", size)
        mon.check(list(got[1]) == numbers, "read_structure elements", got=got[1], want=numbers)
        near(mon, got[2], pos, "read_structure positions")
        mon.check(np.array_equal(poscar.read_positions(arg), got[2]), "read_positions agrees")
        mon.check(np.array_equal(generic.read_positions(arg, "poscar"), got[2]), "generic read_positions agrees")
        mon.check(np.array_equal(generic.read_positions(arg, "xdatcar"), got[2]), "generic xdatcar read_positions agrees")
        if len(numbers) <= 40 and regime not in ("faces", "tiny lattice", "big lattice", "all"):
            for ref in (poscar.read_ref_structure(arg), generic.read_ref_structure(arg, "poscar"), generic.read_ref_structure(arg, "xdatcar")):
                mon.check(np.array_equal(ref.lattice, got[0]) and np.array_equal(ref.positions, got[2]) and ref.atomic_numbers == numbers and ref.num_atoms == len(numbers), "reference structure agrees")
                mon.event("reference structures")
        # writing what was read changes nothing
        second = os.path.join(folder, "again")
        generic.write_structure(*got, second, "poscar")
        again = poscar.read_structure(second)
        mon.check(np.array_equal(again[0], got[0]) and again[1] == got[1] and np.array_equal(again[2], got[2]), "second round trip is exact")
        mon.event("structures")
        mon.nontrivial(regime, use, label, pos)
        mon.sample(regime=regime, atoms=len(numbers), label=label, interface=use)
    finally:
        shutil.rmtree(folder)


@case(quick=60, thorough=2500)
def trajectories(mon, rng, index):
    from ramannoodle.io import generic
    from ramannoodle.io.vasp import xdatcar

    regime, lattice, numbers, pos = structure(rng, index)
    n = len(numbers)
    frames = int(rng.choice([1, 2, 3, 9, 10, 33, 120])) if n < 30 else int(rng.choice([1, 2, 5]))
    if index == 17:
        frames, numbers, n = 1100, numbers[:1], 1
    ts = rng.random((frames, n, 3))
    ts[0] = pos[:n]
    motion = ["independent", "drift", "one atom", "pauses", "returns"][int(rng.integers(5))]
    if motion == "drift":  # every frame close to the one before, none equal to it
        size = 10.0 ** rng.integers(-11, -2)
        ts = np.clip(ts[0] + size * np.cumsum(rng.uniform(-1, 1, ts.shape), axis=0), 0, 1)
    elif motion == "one atom":
        ts[:] = ts[0]
        ts[:, rng.integers(n)] = rng.random((frames, 3))
    elif motion == "pauses":
        ts = ts[np.sort(rng.integers(0, frames, frames))]
    elif motion == "returns":
        ts[-1] = ts[0]
    label = LABELS[int(rng.integers(len(LABELS)))]
    folder = tempfile.mkdtemp(prefix="rnmon_p16_")
    try:
        path = os.path.join(folder, "XDATCAR")
        arg = Path(path) if rng.random() < 0.5 else path
        use = int(rng.integers(3))
        if use == 0:
            kw = {} if label is None else {"label": label}
            xdatcar.write_trajectory(lattice, numbers, ts, arg, **kw)
        elif use == 1:
            generic.write_trajectory(lattice, numbers, ts, arg, "xdatcar")
        else:
            xdatcar.write_trajectory(lattice, numbers, ts, arg, True)
        _, flat, fsym, fframes = genfiles.parse_poscar(Path(path).read_text(encoding="utf-8"))
        near(mon, flat, lattice, "lattice in file", np.abs(lattice).max())
        mon.same([elements.NUMBER[s] for s in fsym], numbers, "elements in file")
        near(mon, np.array(fframes), ts, "configurations in file")
        got = xdatcar.read_positions_ts(arg)
        near(mon, got, ts, "read_positions_ts")
        dt = float(rng.uniform(0.1, 5))
        traj = xdatcar.read_trajectory(arg, dt)
        mon.check(len(traj) == frames and traj.timestep == dt, "frames and timestep", got=len(traj), want=frames)
        d = traj.positions_ts - ts
        mon.close(d - np.rint(d), 0 * d, "read_trajectory", rtol=0, atol=1e-12)
        # the first configuration is what structure readers see
        mon.check(np.array_equal(generic.read_positions(arg, "xdatcar"), got[0]), "first configuration")
        mon.event("trajectories")
        mon.event(f"motion: {motion}")
        mon.nontrivial("trajectory", regime, motion, frames, n, label, use)
        mon.sample(regime=regime, atoms=n, frames=frames, label=label)
    finally:
        shutil.rmtree(folder)


@case(quick=12, thorough=400)
def rewritten(mon, rng, index):
    """A path that is written again and again, with files of the same size and age."""
    from ramannoodle.io import generic
    from ramannoodle.io.vasp import poscar, xdatcar

    _, lattice, numbers, _ = structure(rng, 0)
    n = len(numbers)
    folder = tempfile.mkdtemp(prefix="rnmon_p16_")
    try:
        path = os.path.join(folder, "same")
        first = rng.uniform(0.1, 0.9, (2, n, 3))
        for step in range(4):
            ts = first if step == 3 else rng.uniform(0.1, 0.9, (2, n, 3))
            if step == 2:  # exchanged for another file
                spare = os.path.join(folder, "spare")
                poscar.write_structure(lattice, numbers, ts[0], spare)
                os.replace(spare, path)
            else:
                generic.write_structure(lattice, numbers, ts[0], path, "poscar", overwrite=True)
            os.utime(path, (1.6e9, 1.6e9))
            got = poscar.read_structure(path)
            near(mon, got[2], ts[0], f"read_structure of a rewritten file (step {step})")
            near(mon, poscar.read_positions(path), ts[0], f"read_positions of a rewritten file (step {step})")
            near(mon, generic.read_positions(path, "poscar"), ts[0], f"generic read_positions of a rewritten file (step {step})")
            near(mon, poscar.read_ref_structure(path).positions, ts[0], f"read_ref_structure of a rewritten file (step {step})")
            got[0][:] = 0
            got[2][:] = 0
            got[1].clear()
            again = poscar.read_structure(path)
            mon.check(list(again[1]) == numbers, "elements read again", got=again[1], want=numbers)
            near(mon, again[0], lattice, "lattice read again", np.abs(lattice).max())
            near(mon, again[2], ts[0], "positions read again")
            other = path + "_X"
            xdatcar.write_trajectory(lattice, numbers, ts, other, overwrite=True)
            os.utime(other, (1.6e9, 1.6e9))
            series = xdatcar.read_positions_ts(other)
            near(mon, series, ts, f"read_positions_ts of a rewritten file (step {step})")
            series[:] = 0
            near(mon, xdatcar.read_positions_ts(other), ts, f"read_positions_ts again (step {step})")
            near(mon, generic.read_positions(other, "xdatcar"), ts[0], f"first configuration of a rewritten file (step {step})")
        mon.event("rewritten")
        mon.nontrivial("rewritten", numbers, first)
    finally:
        shutil.rmtree(folder)


@case(quick=40, thorough=600)
def refused(mon, rng, index):
    """What cannot be represented is refused and leaves no file."""
    from ramannoodle.io import generic
    from ramannoodle.io.vasp import poscar, xdatcar

    lattice = gen.lattice(rng)
    n = int(rng.integers(3, 9))
    a, b, c = (int(z) for z in rng.permutation(np.arange(1, 119))[:3])
    pos = rng.random((n, 3))
    good = [a] * (n - 1) + [b]
    kind = ["ungrouped", "ungrouped late", "bad number", "above", "below", "count", "shape", "lattice", "no number", "no lattice"][index % 10]
    numbers, p, lat = list(good), pos.copy(), lattice
    if kind == "ungrouped":
        numbers = [a, b, a] + [a] * (n - 3)
    elif kind == "ungrouped late":
        numbers = [a, b] + [c] * (n - 2)
        numbers[-1] = [a, b][rng.integers(2)]
        if n == 3 and numbers[-1] == b:
            numbers[-1] = a
    elif kind == "bad number":
        numbers[rng.integers(n)] = int(rng.choice([0, -1, 119, 500]))
    elif kind == "above":
        p[rng.integers(n), rng.integers(3)] = rng.choice([1.0 + 1e-9, 1.5, 7])
    elif kind == "below":
        p[rng.integers(n), rng.integers(3)] = rng.choice([-1e-9, -0.5])
    elif kind == "count":
        numbers = numbers + [b] if rng.random() < 0.5 else numbers[1:]
    elif kind == "shape":
        p = [pos[:, :2], pos.ravel(), pos[None]][int(rng.integers(3))]
    elif kind == "no number":
        p[rng.integers(n), rng.integers(3)] = rng.choice([np.nan, np.inf, -np.inf])
    elif kind == "no lattice":
        lat = lattice.copy()
        lat[rng.integers(3), rng.integers(3)] = rng.choice([np.nan, np.inf, -np.inf])
    else:
        lat = [lattice[:2], lattice[:, :2], lattice.ravel()][int(rng.integers(3))]
    folder = tempfile.mkdtemp(prefix="rnmon_p16_")
    try:
        path = os.path.join(folder, "out")
        stack = np.array([pos, p, pos]) if np.shape(p) == np.shape(pos) else np.array([p, p])
        for fn, args in (
            (poscar.write_structure, (lat, numbers, p, path)),
            (generic.write_structure, (lat, numbers, p, path, "poscar")),
            (xdatcar.write_trajectory, (lat, numbers, stack, path)),
            (generic.write_trajectory, (lat, numbers, stack, path, "xdatcar")),
        ):
            if kind == "shape" and fn in (xdatcar.write_trajectory, generic.write_trajectory) and stack.shape[1:] == pos.shape:
                continue
            mon.raises((ValueError, TypeError), f"{kind} refused by {fn.__module__}.{fn.__name__}", fn, *args)
            mon.check(not os.path.exists(path), f"{kind}: refused structure leaves no file")
            mon.event("refusals")
        mon.nontrivial("refused", kind, numbers)
    finally:
        shutil.rmtree(folder)
