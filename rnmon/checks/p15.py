"""P15: spectrum convolution."""

import numpy as np

from rnmon.core import case

RULE = "distinct (function, grid kind, number of lines, width) cases with non-zero intensity"
ASSUMPTIONS = [
    "absolute tolerance 1e-10 of the largest possible peak (truncating negligible tails is allowed)",
]
REQUIRED_EVENTS = ["gaussian", "lorentzian", "default_grid", "integrals"]


def line(fn, x, width):
    if fn == "gaussian":
        return np.exp(-0.5 * (x / width) ** 2) / (width * np.sqrt(2 * np.pi))
    return (0.5 * width) / np.pi / (x * x + 0.25 * width * width)


def peak(fn, width):
    return line(fn, 0.0, width)


def truth(fn, nu, inten, width, grid):
    grid = np.asarray(grid, dtype=float)
    return sum((a * line(fn, grid - v, width) for v, a in zip(nu, inten)), np.zeros(grid.shape))


def lines(rng, index):
    m = int(rng.choice([1, 1, 2, 3, 10, 60]))
    nu = rng.uniform(-200, 1500, m)
    if index % 4 == 1:
        nu = rng.choice(np.round(nu), m)
    if index % 5 == 2:
        nu = np.sort(nu)[::-1].copy()
    if index % 6 == 3:
        nu = np.rint(nu).astype(int)
    inten = rng.uniform(0, 5, m)
    if index % 7 == 3:
        inten = inten * rng.choice([-1, 1], m)
    if index % 8 == 5:
        inten = np.rint(inten * 10).astype(int)
    if index % 11 == 4:
        inten = inten * 1e-9
    if index % 11 == 5:
        inten = inten * 1e9
    return nu, inten


GRIDS = ["float", "int", "int32", "unsorted", "single", "empty", "coarse", "dense", "reverse", "negative", "nonuniform", "float32", "repeated"]


def grid_for(rng, kind):
    lo, hi = np.sort(rng.uniform(-300, 1600, 2))
    if kind == "float":
        return np.linspace(lo, hi, 301)
    if kind == "int":
        return np.arange(int(lo), int(hi) + 2, int(rng.choice([1, 3, 10])))
    if kind == "int32":
        return np.arange(0, 800, 7, dtype=np.int32)
    if kind == "unsorted":
        return rng.uniform(lo, hi, 57)
    if kind == "single":
        return rng.uniform(lo, hi, 1)
    if kind == "empty":
        return np.array([])
    if kind == "coarse":
        return np.linspace(-500, 2500, 7)
    if kind == "dense":
        return np.linspace(lo, lo + 3, 400)
    if kind == "reverse":
        return np.linspace(hi, lo, 120)
    if kind == "negative":
        return np.linspace(-1000, -1, 99)
    if kind == "float32":
        return np.linspace(0, 1024, 129).astype(np.float32)
    if kind == "repeated":
        return np.repeat(np.linspace(lo, hi, 20), 2)
    return lo + np.cumsum(rng.exponential(5, 80))


@case(quick=208, thorough=20000)
def pointwise(mon, rng, index):
    from ramannoodle.spectrum.utils import convolve_spectrum

    fn = ["gaussian", "lorentzian"][index % 2]
    kind = GRIDS[(index // 2) % len(GRIDS)]
    nu, inten = lines(rng, index)
    width = float(rng.choice([0.3, 1, 5, 5, 12.5, 80, rng.uniform(0.2, 50)]))
    if index % 10 == 7:
        width = int(np.ceil(width))
    grid = grid_for(rng, kind)
    tol = 1e-10 * peak(fn, width) * (np.abs(inten).sum() + 1e-300)
    if kind == "float32":
        tol *= 1e6
    gin = grid.copy()
    w, i = convolve_spectrum(nu, inten, fn, width, gin)
    mon.check(np.shape(w) == grid.shape and np.array_equal(w, grid), "returned on exactly the requested grid", got=w, want=grid)
    want = truth(fn, nu, inten, width, grid)
    mon.close(i, want, "sum of normalised line shapes", rtol=1e-9 if kind != "float32" else 1e-3, atol=tol, function=fn, width=width, lines=nu, intensities=inten, grid=grid)
    # linear
    other = rng.uniform(0, 3, len(nu))
    c = rng.uniform(-2, 2)
    _, j = convolve_spectrum(nu, other, fn, width, gin)
    _, k = convolve_spectrum(nu, inten + c * other, fn, width, gin)
    tol2 = tol + 1e-10 * peak(fn, width) * np.abs(other).sum() * 2 * (1e6 if kind == "float32" else 1)
    mon.close(k, i + c * j, "linear in intensities", rtol=1e-8 if kind != "float32" else 1e-3, atol=tol2)
    # order of lines / sum over lines
    order = rng.permutation(len(nu))
    _, p = convolve_spectrum(nu[order], inten[order], fn, width, gin)
    mon.close(p, i, "independent of line order", rtol=1e-9 if kind != "float32" else 1e-3, atol=tol)
    parts = sum(convolve_spectrum(nu[m : m + 1], inten[m : m + 1], fn, width, gin)[1] for m in range(len(nu)))
    mon.close(parts, i, "sum over lines", rtol=1e-9 if kind != "float32" else 1e-3, atol=tol)
    # keyword defaults
    if index % 5 == 0:
        _, d = convolve_spectrum(nu, inten, out_wavenumbers=gin)
        mon.close(d, truth("gaussian", nu, inten, 5, grid), "defaults: gaussian, width 5", rtol=1e-6 if kind != "float32" else 1e-3, atol=1e-9 * (np.abs(inten).sum() + 1e-300) * (1e6 if kind == "float32" else 1))
    mon.event(fn)
    mon.event("points", int(grid.size))
    if grid.size and np.abs(want).max() > 0:
        mon.nontrivial(fn, kind, len(nu), width, nu)
    mon.sample(function=fn, grid=kind, width=width, lines=nu, intensities=inten)


@case(quick=60, thorough=3000)
def weight(mon, rng, index):
    """Integral, symmetry, full width at half maximum / standard deviation, locality."""
    from ramannoodle.spectrum.utils import convolve_spectrum

    fn = ["gaussian", "lorentzian"][index % 2]
    nu, inten = lines(rng, index)
    inten = np.abs(inten)
    width = float(rng.choice([1.0, 4.0, 20.0]))
    if fn == "gaussian":
        grid = np.arange(nu.min() - 12 * width, nu.max() + 12 * width, width / 8)
        _, i = convolve_spectrum(nu, inten, fn, width, grid)
        mon.close(np.trapezoid(i, grid), inten.sum(), "integrates to the total intensity", rtol=1e-6)
    else:
        # arctan substitution handles the tails
        th = (np.arange(4000) + 0.5) / 4000 * np.pi - np.pi / 2
        span = max(np.ptp(nu), width)
        total = 0.0
        grid = np.mean(nu) + span * np.tan(th)
        _, i = convolve_spectrum(nu, inten, fn, width, grid)
        total = np.sum(i * span / np.cos(th) ** 2) * np.pi / 4000
        if span / width < 60:
            mon.close(total, inten.sum(), "integrates to the total intensity", rtol=1e-3)
    mon.event("integrals")
    # symmetric about a single line
    off = rng.uniform(0, 6 * width, 40)
    v, a = float(nu[0]), float(inten[0]) + 1.0
    _, right = convolve_spectrum(np.array([v]), np.array([a]), fn, width, v + off)
    _, left = convolve_spectrum(np.array([v]), np.array([a]), fn, width, v - off)
    mon.close(left, right, "symmetric about the line", rtol=1e-7, atol=1e-9 * a * peak(fn, width))
    # shape
    _, h = convolve_spectrum(np.array([v]), np.array([a]), fn, width, np.array([v, v + width / 2, v + width]))
    if fn == "lorentzian":
        mon.close(h[1] / h[0], 0.5, "lorentzian: width is the full width at half maximum", rtol=1e-6)
    else:
        mon.close(h[2] / h[0], np.exp(-0.5), "gaussian: width is the standard deviation", rtol=1e-6)
    mon.check(h[0] > h[1] > h[2] > 0, "decreasing away from the line")
    mon.nontrivial("weight", fn, width, nu)


@case(quick=60, thorough=3000)
def default_grid(mon, rng, index):
    from ramannoodle.spectrum.utils import convolve_spectrum

    fn = ["gaussian", "lorentzian"][index % 2]
    nu, inten = lines(rng, index)
    width = float(rng.choice([2.0, 5.0, 15.0]))
    w, i = convolve_spectrum(nu, inten, fn, width)
    lo, hi = nu.min() - 100, nu.max() + 100
    mon.check(abs(w[0] - lo) < 1e-6 and abs(w[-1] - hi) < 1e-6, "default grid extends 100 beyond the lines", got=(w[0], w[-1]), want=(lo, hi))
    step = np.diff(w)
    mon.check((np.abs(step - 1) < 0.02).all(), "default grid has about 1 cm-1 spacing", steps=step)
    mon.close(i, truth(fn, nu, inten, width, w), "line shapes on the default grid", rtol=1e-9, atol=1e-10 * peak(fn, width) * (np.abs(inten).sum() + 1e-300))
    mon.event("default_grid")
    mon.nontrivial("default", fn, nu)


@case(quick=24, thorough=200)
def refusals(mon, rng, index):
    from ramannoodle.spectrum.utils import convolve_spectrum

    nu, inten = lines(rng, index)
    for bad in (0, -1, -5.0, 0.0):
        mon.raises(ValueError, "non-positive width refused", convolve_spectrum, nu, inten, "gaussian", bad)
        mon.raises(ValueError, "non-positive width refused", convolve_spectrum, nu, inten, "lorentzian", bad)
    for bad in ("voigt", "", "Gaussian", "lorentz", "gauss"):
        mon.raises(ValueError, "unsupported function refused", convolve_spectrum, nu, inten, bad)
    mon.raises(ValueError, "length mismatch refused", convolve_spectrum, nu, np.append(inten, 1.0))
    mon.raises(ValueError, "length mismatch refused", convolve_spectrum, nu, inten[:-1])
    mon.raises(ValueError, "2D refused", convolve_spectrum, nu[None], inten)
    mon.raises(ValueError, "2D refused", convolve_spectrum, nu, inten[None])
    mon.raises(ValueError, "2D grid refused", convolve_spectrum, nu, inten, "gaussian", 5, np.zeros((2, 2)))
    mon.nontrivial("refusal", nu)
