"""P21: trajectories are sequences of wrapped configurations."""

import numpy as np

from rnmon import gen
from rnmon.core import case

RULE = "distinct (position time series, index expression) pairs compared with the wrapped series"
ASSUMPTIONS = [
    "wrapped positions are compared modulo rounding (1e-12 relative to the size of the raw coordinates) and must lie in [0,1]",
    "slices of a trajectory are arrays of positions, as annotated; index arrays are not claimed",
]
REQUIRED_EVENTS = ["indexing", "slicing", "iteration", "containment", "out of range", "timestep refused", "shape refused", "spectra", "far frames", "frames: stuck", "frames: still", "frames: cyclic", "frames: hops", "frames: one atom", "single frame", "model refused", "long trajectories"]


def series(rng, index):
    s = int(rng.choice([1, 2, 3, 7, 40, 200]))
    n = int(rng.choice([1, 2, 5, 16]))
    kind = ["inside", "drift", "far", "edges", "integers", "constant", "corners"][index % 7]
    if kind == "inside":
        ts = rng.random((s, n, 3))
    elif kind == "drift":
        ts = np.cumsum(rng.normal(scale=0.2, size=(s, n, 3)), axis=0) + rng.random((n, 3))
    elif kind == "far":
        ts = rng.random((s, n, 3)) + rng.integers(-1000, 1000, (s, n, 3))
    elif kind == "edges":
        ts = rng.choice([0.0, 1.0, -1.0, -1e-17, 1e-17, 0.5, 1 - 1e-16, -0.0, 2.0, -3e-9, 7.25], (s, n, 3))
    elif kind == "corners":  # nothing outside the cell, some of it on the upper faces
        ts = rng.choice([0.0, 1.0, 0.5, 0.25, 1 - 2.0**-53, 5e-324], (s, n, 3))
    elif kind == "integers":
        ts = rng.integers(-5, 5, (s, n, 3)) + rng.choice([0, 0.25])
    else:
        ts = np.repeat(rng.normal(size=(1, n, 3)), s, axis=0)
    if rng.random() < 0.2:
        ts = np.asfortranarray(ts)
    if rng.random() < 0.2:
        ts = np.repeat(ts, 2, axis=0)[::2]  # not contiguous
    return kind, ts


def wrapped(mon, got, raw, what, **info):
    """got holds raw's configurations wrapped into the cell."""
    mon.check(got.shape == raw.shape, what + ": shape", got=got.shape, want=raw.shape, **info)
    mon.check(bool(((got >= 0) & (got <= 1)).all()), what + ": inside the cell", low=got.min(initial=0), high=got.max(initial=0), **info)
    # the upper face is the lower one: only rounding may leave a coordinate there
    top = got == 1
    mon.check(not bool((top & ((raw == np.rint(raw)) | (np.abs(raw - np.rint(raw)) > 1e-9))).any()), what + ": the upper face belongs to the next cell", **info)
    d = got - raw
    tol = 1e-12 * (1 + np.abs(raw).max(initial=0))
    mon.close(np.abs(d - np.rint(d)).max(initial=0), 0, what + ": same configurations in the same order", rtol=0, atol=tol, **info)


@case(quick=260, thorough=30000)
def protocol(mon, rng, index):
    """Sequence protocol against the list of wrapped configurations."""
    from ramannoodle.dynamics import Trajectory

    kind, raw = series(rng, index)
    step = float(rng.choice([0.5, 1, 2, 1e-3, 40.0, 0.4838, rng.uniform(0.1, 4)])) if index % 2 else int(rng.integers(1, 5))
    kept = raw.copy()
    t = Trajectory(raw, step)
    info = dict(kind=kind, shape=raw.shape)
    mon.check(np.array_equal(raw, kept), "the given array was changed", **info)
    mon.check(t.timestep == step, "timestep is stored", got=t.timestep, want=step)
    truth = t.positions_ts
    wrapped(mon, truth, kept, "positions", **info)
    s = len(raw)
    mon.check(len(t) == s, "length is the number of configurations", got=len(t), want=s)
    # the caller's array is no longer involved
    raw[...] = 77.125
    mon.same(t.positions_ts, truth, "trajectory follows the caller's array", **info)
    # indexing
    for i in {0, s - 1, -1, -s, int(rng.integers(-s, s)), int(rng.integers(-s, s))}:
        mon.same(t[i], truth[i], "frame by index", i=i, **info)
        mon.same(t[np.int64(i)], truth[i], "frame by numpy integer", i=i, **info)
        mon.event("indexing")
        mon.nontrivial("index", truth, i)
    for i in (s, -s - 1, s + int(rng.integers(1, 9)), -s - int(rng.integers(2, 9)), 10**12):
        mon.raises(IndexError, "out-of-range access", lambda k: t[k], i)
        mon.event("out of range")
    # slicing
    pool = [None, 0, 1, -1, s, -s, s + 3, -s - 3, int(rng.integers(-s - 2, s + 3)), int(rng.integers(-s - 2, s + 3))]
    for _ in range(6):
        a, b = pool[rng.integers(len(pool))], pool[rng.integers(len(pool))]
        c = [None, 1, 2, -1, -2, 3, s + 1][int(rng.integers(7))]
        got = t[a:b:c]
        want = [truth[i] for i in range(*slice(a, b, c).indices(s))]
        mon.check(len(got) == len(want), "length of a slice", slice=(a, b, c), got=len(got), want=len(want), **info)
        for x, y in zip(got, want):
            mon.same(x, y, "frame of a slice", slice=(a, b, c), **info)
        mon.event("slicing")
        mon.nontrivial("slice", truth, a, b, c)
    mon.raises(ValueError, "zero slice step", lambda: t[::0])
    # iteration, twice and reversed and nested
    for _ in range(2):
        frames = list(t)
        mon.check(len(frames) == s, "number of frames by iteration", got=len(frames), want=s)
        for x, y in zip(frames, truth):
            mon.same(x, y, "frame by iteration", **info)
    for x, y in zip(reversed(t), truth[::-1]):
        mon.same(x, y, "frame by reversed iteration", **info)
    one, two = iter(t), iter(t)
    next(one)
    mon.same(next(two), truth[0], "iterators are independent", **info)
    mon.event("iteration")
    mon.check(bool(t), "a trajectory with frames is true")
    if s > 1:
        mon.event("long")
    else:
        mon.event("single frame")
    # containment
    i = int(rng.integers(s))
    first = next(k for k in range(s) if np.array_equal(truth[k], truth[i]))
    mon.check(truth[i] in t, "a frame of the trajectory is contained", i=i, **info)
    mon.check(t.index(truth[i].copy()) == first, "index of a frame", i=i, got=t.index(truth[i]), want=first, **info)
    mon.check(t.count(truth[i]) == sum(np.array_equal(x, truth[i]) for x in truth), "count of a frame", **info)
    other = truth[i].copy()
    other[int(rng.integers(len(other))), int(rng.integers(3))] += 0.0625
    absent = not any(np.array_equal(x, other) for x in truth)
    mon.check((other in t) == (not absent), "containment of another configuration", **info)
    mon.check(truth[i][:, :2] not in t, "configurations of other shapes are not contained", **info)
    if absent:
        mon.raises(ValueError, "index of an absent frame", t.index, other)
        mon.check(t.count(other) == 0, "count of an absent frame", **info)
    mon.event("containment")
    if kind in ("far", "drift"):
        mon.event("far frames")
    # length and order are immutable
    for attempt in (lambda: t.__setitem__(0, truth[0]), lambda: t.__delitem__(0), lambda: t.append(truth[0])):
        mon.raises((TypeError, AttributeError), "item assignment", attempt)
    for attempt in (lambda: setattr(t, "timestep", 3.0), lambda: setattr(t, "positions_ts", truth)):
        mon.raises(AttributeError, "assignment of an attribute", attempt)
    mon.same(t.positions_ts, truth, "reads changed the trajectory", **info)
    mon.check(t.timestep == step and len(t) == s, "reads changed the timestep or the length")
    mon.sample(**info, timestep=step)


@case(quick=60, thorough=4000)
def refused(mon, rng, index):
    """Malformed arrays and timesteps."""
    from ramannoodle.dynamics import Trajectory

    _, ts = series(rng, index)
    for step in (0, 0.0, -0.0, -1, -1e-300, -float(rng.random()) - 1e-9, -np.inf, np.float64(-2.0), np.int64(0)):
        mon.raises(ValueError, "non-positive timestep", Trajectory, ts, step)
        mon.event("timestep refused")
    for step in (None, [1.0], {}):
        mon.raises((TypeError, ValueError), "malformed timestep", Trajectory, ts, step)
    for bad in (ts[0], ts[..., :2], ts[None], ts.reshape(-1), np.float64(1), ts.tolist(), None, ts[..., None], np.concatenate([ts, ts[..., :1]], axis=2)):
        mon.raises((ValueError, TypeError), "malformed positions", Trajectory, bad, 1.0)
        mon.event("shape refused")
    mon.nontrivial("refused", ts)


LONG = [1000, 1024, 2000, 500, 4096, 512, 5000, 2048, 10000, 100, 256, 8192]


def recorder(tensors, shape):
    from ramannoodle.abstract import PolarizabilityModel

    class Recorder(PolarizabilityModel):
        """Returns prescribed tensors for known frames and logs what it is shown."""

        def __init__(self):
            self.log = []

        def calc_polarizabilities(self, positions_batch):
            if positions_batch.shape[1:] != shape:
                raise ValueError("incompatible")
            self.log.append(np.array(positions_batch))
            return np.array([tensors(x) for x in positions_batch])

    return Recorder()


@case(quick=120, thorough=12000)
def spectra(mon, rng, index):
    """Every frame once, in order, with the stored timestep."""
    from ramannoodle.dynamics import Trajectory
    from ramannoodle.spectrum import MDRamanSpectrum

    s = int(rng.choice([3, 4, 9, 50, 301]))
    n = int(rng.choice([1, 3, 8]))
    if index % 10 == 9:  # long ones, around the sizes by which work might be divided
        s = LONG[(index // 10) % len(LONG)] + int(rng.choice([-1, 0, 1, 1, 1]))
        n = 1
        mon.event("long trajectories")
    raw = rng.normal(size=(s, n, 3)) * float(rng.choice([0.3, 30.0]))
    kind = ["generic", "stuck", "still", "cyclic", "hops", "one atom"][index % 6]
    if kind == "stuck":  # steps in which nothing moves
        for k in range(1, s):
            if rng.random() < 0.4:
                raw[k] = raw[k - 1]
    elif kind == "still":  # steps in which hardly anything moves
        raw = raw[:1] + np.cumsum(rng.normal(size=raw.shape), axis=0) * float(rng.choice([0, 1e-13, 1e-9, 1e-6, 1e-4]))
    elif kind == "cyclic":
        raw = raw[np.arange(s) % int(rng.integers(1, 4))]
    elif kind == "hops":  # the same configurations in other cells
        raw = raw[:1] + rng.integers(-4, 5, raw.shape)
    elif kind == "one atom":
        raw[:, : n - 1] = raw[0, : n - 1]
    mon.event("frames: " + kind)
    step = float(rng.choice([0.5, 1.0, 3.7, 0.4838, rng.uniform(0.1, 4), 41.341374575751 / 3]))
    m1, m2 = (gen.sym_tensor(rng) for _ in range(2))
    weight = rng.normal(size=(n, 3))

    def tensors(x):
        phase = 2 * np.pi * x  # the same for all images
        return np.sum(np.cos(phase) * weight) * m1 + np.sum(np.sin(phase) * weight[::-1]) * m2

    model = recorder(tensors, (n, 3))
    t = Trajectory(raw, step)
    if index % 2:
        list(t), t[::2], t[-1], t.positions_ts  # earlier reads do not matter
    spectrum = t.get_raman_spectrum(model)
    seen = np.concatenate(model.log)
    wrapped(mon, seen, raw, "frames shown to the model")
    want = np.array([tensors(x) for x in raw])
    mon.close(spectrum.polarizability_ts, want, "polarizabilities of the frames, in order", rtol=0, atol=1e-9 * (1 + np.abs(raw).max()))
    mon.check(spectrum.timestep == step, "timestep of the spectrum", got=spectrum.timestep, want=step)
    w, y = spectrum.measure()
    w2, y2 = MDRamanSpectrum(want, step).measure()
    mon.close(w, w2, "wavenumbers", rtol=1e-12, atol=0)
    size = (np.abs(want).max() / step) ** 2 * s
    mon.close(y, y2, "intensities", rtol=0, atol=1e-8 * (1 + np.abs(raw).max()) * np.abs(y2).max(initial=0) + 1e-12 * (1 + np.abs(raw).max()) * size)
    again = t.get_raman_spectrum(model)
    mon.close(again.polarizability_ts, spectrum.polarizability_ts, "a second spectrum", rtol=0, atol=0)
    mon.event("spectra")
    mon.nontrivial("spectrum", raw, step)
    other = recorder(tensors, (n + 1, 3))
    mon.raises(ValueError, "incompatible model", t.get_raman_spectrum, other)
    mon.event("model refused")
    wrapped(mon, t.positions_ts, raw, "positions after spectra")


@case(quick=30, thorough=2000)
def built_models(mon, rng, index):
    """Interpolation models do not see in which cell the frames were given."""
    from rnmon import models
    from ramannoodle.dynamics import Trajectory

    crystal = gen.describe(rng, gen.NAMES[index % len(gen.NAMES)], max_atoms=6)
    response = gen.Response(crystal, rng, degree=1)
    model = models.complete(crystal, response, rng, art=bool(index % 2), limit_dofs=3)
    s = int(rng.integers(3, 30))
    u = rng.normal(size=(s, crystal.n, 3)) * 0.02
    inside = crystal.positions + u @ np.linalg.inv(crystal.lattice)
    moved = inside + rng.integers(-3, 4, inside.shape)
    a = Trajectory(inside, 1.0).get_raman_spectrum(model).polarizability_ts
    b = Trajectory(moved, 1.0).get_raman_spectrum(model).polarizability_ts
    mon.close(b, a, "cells in which frames are given", rtol=0, atol=1e-9)
    for k in (0, s - 1):
        mon.close(a[k], model.calc_polarizabilities(inside[k : k + 1])[0], "frame by frame", rtol=0, atol=1e-10)
    mon.nontrivial("built", crystal.name, crystal.lattice)
