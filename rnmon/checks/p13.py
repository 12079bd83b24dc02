"""P13: molecular-dynamics spectra."""

import numpy as np

from rnmon import gen
from rnmon.core import case

RULE = "distinct (signal kind, length, timestep) with a non-constant signal"
ASSUMPTIONS = [
    "FFT rounding: deviations up to 1e-9 of the largest intensity are tolerated",
    "the wavenumber of a line is only resolved to the frequency grid of the run",
]
REQUIRED_EVENTS = ["signals", "peaks", "long runs"]

CM = 33356.40951981521  # 1/fs -> cm^-1


def truth_signal(x, dt):
    """Direct (matrix) transform of the one-sided autocorrelation."""
    n = len(x)
    if n > 2000:
        # zero-padded transform: the same sums, in n log n
        f = np.fft.rfft(x, 2 * n)
        ac = np.fft.irfft(f * f.conj(), 2 * n)[:n]
    else:
        ac = np.array([np.dot(x[k:], x[: n - k]) for k in range(n)])
    j = np.arange((n + 1) // 2)
    if n <= 400:
        phase = np.exp(-2j * np.pi * np.outer(j, np.arange(n)) / n)
        spec = (phase @ ac).real
    else:
        spec = np.fft.fft(ac).real[: len(j)]
    return j / (n * dt) * CM, spec


def truth_md(alpha, dt):
    d = alpha[1:] - alpha[:-1]
    w, iso = truth_signal(np.trace(d, axis1=1, axis2=2) / 3, dt)
    xx, yy, zz = d[:, 0, 0], d[:, 1, 1], d[:, 2, 2]
    s = lambda q: truth_signal(q, dt)[1]
    g = 0.5 * (s(xx - yy) + s(yy - zz) + s(zz - xx)) + 3 * (s(d[:, 0, 1]) + s(d[:, 1, 2]) + s(d[:, 0, 2]))
    return w[1:], (45 * iso + 7 * g)[1:]


def signal(rng, kind, n):
    t = np.arange(n)
    if kind == "noise":
        return rng.normal(size=n)
    if kind == "sine":
        return np.sin(rng.uniform(0.05, 3.0) * t + rng.uniform(0, 6))
    if kind == "impulse":
        x = np.zeros(n)
        x[rng.integers(n)] = rng.normal()
        return x
    if kind == "walk":
        return np.cumsum(rng.normal(size=n))
    if kind == "offset":
        return 5 + rng.normal(size=n) * 0.1
    return rng.normal(size=n) * 10.0 ** rng.integers(-6, 7)


KINDS = ["noise", "sine", "impulse", "walk", "offset", "scaled"]


@case(quick=90, thorough=8000)
def signals(mon, rng, index):
    from ramannoodle.spectrum.utils import calc_signal_spectrum

    kind = KINDS[index % len(KINDS)]
    n = int(rng.choice([1, 2, 3, 4, 5, 8, 17, 64, 101, 256, 601, 1500 if mon.thorough else 700]))
    dt = float(rng.choice([0.25, 0.5, 1.0, 2.0, 5.0, rng.uniform(0.1, 10)]))
    x = signal(rng, kind, n)
    w, i = calc_signal_spectrum(x.copy(), dt)
    ww, ii = truth_signal(x, dt)
    mon.check(np.shape(w) == np.shape(i) == ((n + 1) // 2,), "length ceil(S/2)", got=np.shape(w), n=n)
    mon.close(w, ww, "wavenumber axis", rtol=1e-9, atol=1e-9)
    mon.close(i, ii, "spectrum is the transform of the autocorrelation", rtol=1e-8, atol=1e-9 * (np.abs(ii).max() + 1e-300) * max(1, n / 100), x=x)
    mon.event("signals")
    mon.nontrivial("signal", kind, n, dt)
    c = rng.uniform(0.1, 4)
    w2, i2 = calc_signal_spectrum(x, dt * c)
    mon.close(w2 * c, w, "wavenumbers inversely proportional to sampling", rtol=1e-9, atol=1e-9)
    mon.close(i2, i, "intensities independent of the sampling", rtol=1e-9, atol=1e-9 * np.abs(ii).max())
    mon.sample(kind=kind, n=n, dt=dt, wavenumbers=w, intensities=i)


def series(rng, kind, s):
    base = gen.sym_tensor(rng) + 5 * np.eye(3)
    if kind == "sine":
        k = rng.uniform(0.1, 2.5)
        return base + np.sin(k * np.arange(s))[:, None, None] * gen.sym_tensor(rng)
    if kind == "iso":
        return base + rng.normal(size=s)[:, None, None] * np.eye(3)
    if kind == "offdiag":
        t = np.zeros((3, 3))
        i, j = rng.choice(3, 2, replace=False)
        t[i, j] = t[j, i] = 1
        return base + rng.normal(size=s)[:, None, None] * t
    a = rng.normal(size=(s, 3, 3))
    return base + a + a.transpose(0, 2, 1)


@case(quick=70, thorough=5000)
def md(mon, rng, index):
    from ramannoodle.spectrum import MDRamanSpectrum

    kind = ["noise", "sine", "iso", "offdiag"][index % 4]
    s = int(rng.choice([3, 4, 5, 6, 7, 12, 33, 64, 65, 200, 501]))
    dt = float(rng.choice([0.5, 1.0, 1.5, 2, rng.uniform(0.2, 8)]))
    # polarizabilities may be in any unit: intensities scale with their square
    unit = 10.0 ** rng.integers(-9, 10) if rng.random() < 0.5 else 1.0
    a = series(rng, kind, s) * unit
    spec = MDRamanSpectrum(a.copy(), dt)
    w, i = spec.measure()
    ww, ii = truth_md(a, dt)
    scale = np.abs(ii).max() + 1e-300 if ii.size else 1.0
    tol = dict(rtol=1e-8, atol=1e-9 * scale)
    mon.close(w, ww, "wavenumbers", rtol=1e-9, atol=1e-9)
    mon.close(i, ii, "MD spectrum is the 45/7 combination", series=a, **tol)
    mon.check((w > 0).all(), "zero-wavenumber point removed", w=w)
    w2, i2 = spec.measure()
    mon.check(np.array_equal(w, w2) and np.array_equal(i, i2), "repeated measurement differs")
    _, io = MDRamanSpectrum(a + gen.sym_tensor(rng) * 3 * unit, dt).measure()
    mon.close(io, i, "constant offset changes the spectrum", rtol=1e-7, atol=1e-8 * scale)
    rot = gen.rotation(rng, improper=bool(rng.integers(2)))
    _, ir = MDRamanSpectrum(rot.T @ a @ rot, dt).measure()
    mon.close(ir, i, "rotation changes the spectrum", rtol=1e-7, atol=1e-8 * scale)
    _, ineg = MDRamanSpectrum(-a, dt).measure()
    mon.close(ineg, i, "sign changes the spectrum", **tol)
    c = 10.0 ** rng.uniform(-9, 9)
    _, ic = MDRamanSpectrum(c * a, dt).measure()
    mon.close(ic, c * c * i, "quadratic scaling", rtol=1e-8, atol=1e-9 * scale * c * c)
    c = rng.uniform(0.2, 5)
    wd, idt = MDRamanSpectrum(a, dt * c).measure()
    mon.close(wd * c, w, "wavenumbers inversely proportional to the timestep", rtol=1e-9, atol=1e-9)
    mon.close(idt, i, "intensities independent of the timestep", **tol)
    mon.check(np.array_equal(spec.polarizability_ts, a) and spec.timestep == dt, "accessors return the data")
    mon.nontrivial("md", kind, s, dt)
    mon.event("scaled series" if unit != 1 else "series")
    mon.sample(kind=kind, frames=s, timestep=dt, intensities=i)
    for bad in (rng.normal(size=(s, 3)), rng.normal(size=(s, 3, 2)), rng.normal(size=(3, 3))):
        mon.raises(ValueError, "wrong shape refused", MDRamanSpectrum, bad, dt)
    for orientation in ("single", "Polycrystalline", ""):
        mon.raises(NotImplementedError, "unsupported orientation refused", spec.measure, orientation)


@case(quick=10, thorough=300)
def long(mon, rng, index):
    """Runs of thousands of frames, up to what trajectories really have."""
    from ramannoodle.spectrum import MDRamanSpectrum
    from ramannoodle.spectrum.utils import calc_signal_spectrum

    n = int([3001, 4096, 5003, 7919, 10000, 12001, 16385, 20011, 32768, 50001][index % 10]) + int(rng.integers(-2, 3))
    dt = float(rng.choice([0.5, 1.0, 2.0]))
    x = signal(rng, KINDS[int(rng.integers(len(KINDS)))], n)
    w, i = calc_signal_spectrum(x.copy(), dt)
    ww, ii = truth_signal(x, dt)
    mon.check(np.shape(w) == np.shape(i) == ((n + 1) // 2,), "length ceil(S/2)", got=np.shape(w), n=n)
    mon.close(w, ww, "wavenumber axis", rtol=1e-9, atol=1e-9)
    mon.close(i, ii, "spectrum is the transform of the autocorrelation", rtol=1e-7, atol=1e-8 * (np.abs(ii).max() + 1e-300) * n / 1000, n=n)
    a = series(rng, ["noise", "sine", "iso", "offdiag"][int(rng.integers(4))], n)
    w, i = MDRamanSpectrum(a, dt).measure()
    ww, ii = truth_md(a, dt)
    mon.close(w, ww, "wavenumbers", rtol=1e-9, atol=1e-9)
    mon.close(i, ii, "MD spectrum is the 45/7 combination", rtol=1e-7, atol=1e-8 * np.abs(ii).max() * n / 1000, n=n)
    mon.event("long runs")
    mon.nontrivial("long", n, dt)


@case(quick=40, thorough=1500)
def peaks(mon, rng, index):
    """A sinusoidal polarizability peaks at its own wavenumber."""
    from ramannoodle.spectrum import MDRamanSpectrum

    s = int(rng.choice([400, 801, 1200]))
    dt = float(rng.choice([0.5, 1.0, 2.0, 3.0]))
    nyq = CM / (2 * dt)
    nu = rng.uniform(0.08, 0.85) * nyq
    t = np.arange(s) * dt
    tensor = gen.sym_tensor(rng)
    a = 4 * np.eye(3) + np.sin(2 * np.pi * nu / CM * t + rng.uniform(0, 6))[:, None, None] * tensor
    w, i = MDRamanSpectrum(a, dt).measure()
    step = w[1] - w[0]
    mon.close(w[np.argmax(i)], nu, "sinusoid peaks at its wavenumber", rtol=0, atol=1.51 * step, dt=dt, frames=s)
    mon.close(w[-1], nyq, "axis ends at the Nyquist wavenumber", rtol=0, atol=1.6 * step)
    # relative weight of two tensors at the same wavenumber
    other = gen.sym_tensor(rng)
    b = 4 * np.eye(3) + np.sin(2 * np.pi * nu / CM * t)[:, None, None] * other
    c = 4 * np.eye(3) + np.sin(2 * np.pi * nu / CM * t)[:, None, None] * tensor
    _, ib = MDRamanSpectrum(b, dt).measure()
    _, icc = MDRamanSpectrum(c, dt).measure()
    from rnmon.checks.p12 import truth

    k = int(np.argmax(ib))
    mon.close(ib[k] * truth(tensor[None])[0], icc[k] * truth(other[None])[0], "peak heights follow the tensors' invariants", rtol=1e-6, atol=0)
    mon.event("peaks")
    mon.nontrivial("peak", s, dt, round(nu))
    mon.sample(nu=nu, dt=dt, frames=s, peak=w[np.argmax(i)])
