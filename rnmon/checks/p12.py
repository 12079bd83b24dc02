"""P12: powder phonon intensities."""

import numpy as np

from rnmon import gen
from rnmon.core import case

RULE = "distinct sets of Raman tensors (at least one non-zero)"
ASSUMPTIONS = ["relative tolerance 1e-10"]
REQUIRED_EVENTS = ["corrected in between", "orientation_refusals", "averages"]

KINDS = ["sym", "iso", "dev", "diag", "offdiag", "zero", "tiny", "huge", "rank1", "int"]


def tensors(rng, kind, m):
    t = rng.normal(size=(m, 3, 3))
    t = (t + t.transpose(0, 2, 1)) / 2
    if kind == "iso":
        t = rng.normal(size=m)[:, None, None] * np.eye(3)
    elif kind == "dev":
        t = t - np.trace(t, axis1=1, axis2=2)[:, None, None] * np.eye(3) / 3
    elif kind == "diag":
        t = t * np.eye(3)
    elif kind == "offdiag":
        keep = np.zeros((3, 3))
        i, j = rng.choice(3, 2, replace=False)
        keep[i, j] = keep[j, i] = 1
        t = t * keep
    elif kind == "zero":
        t[rng.random(m) < 0.7] = 0
    elif kind == "tiny":
        t = t * 1e-8
    elif kind == "huge":
        t = t * 1e8
    elif kind == "rank1":
        v = rng.normal(size=(m, 3))
        t = v[:, :, None] * v[:, None, :]
    elif kind == "int":
        t = np.rint(t * 3)
    return t


def truth(t):
    """45 a^2 + 7 g^2 from invariants (independent of component formulas)."""
    a = np.trace(t, axis1=1, axis2=2) / 3
    dev = t - a[:, None, None] * np.eye(3)
    g2 = 1.5 * np.sum(dev * dev, axis=(1, 2))
    return 45 * a**2 + 7 * g2


@case(quick=150, thorough=20000)
def intensities(mon, rng, index):
    from ramannoodle.spectrum import PhononRamanSpectrum

    kind = KINDS[index % len(KINDS)]
    m = int(rng.choice([0, 1, 2, 3, 9, 45, 300]))
    t = tensors(rng, kind, m)
    nu = rng.uniform(-300, 1500, m)
    if index % 3 == 0 and m:
        nu = rng.choice(np.round(nu), m)  # repeated and unsorted
    if index % 7 == 0:
        nu = np.sort(nu)
        nu[: m // 3] = np.linspace(-3, 3, m // 3) if m // 3 else nu[: m // 3]
    spectrum = PhononRamanSpectrum(nu.copy(), t.copy())
    w, i = spectrum.measure()
    mon.check(np.array_equal(w, nu), "wavenumbers are the phonons', in order", got=w, want=nu)
    want = truth(t)
    scale = np.abs(t).max() ** 2 if m else 1.0
    mon.check(np.shape(i) == (m,), "one intensity per phonon")
    mon.close(i, want, "intensity is 45 a^2 + 7 g^2", rtol=1e-10, atol=1e-10 * scale, tensors=t)
    mon.check((i >= 0).all(), "intensities non-negative", i=i)
    # repeated measurement
    w2, i2 = spectrum.measure("polycrystalline")
    mon.check(np.array_equal(w2, w) and np.array_equal(i2, i), "repeated measurement differs", first=i, second=i2)
    # whatever was measured in between
    with np.errstate(all="ignore"):
        for kwargs in ({"laser_correction": True}, {"bose_einstein_correction": True, "temperature": 77.0}, {"laser_correction": True, "laser_wavelength": 800.0, "bose_einstein_correction": True}):
            spectrum.measure(**kwargs)
            w2, i2 = spectrum.measure()
            mon.check(np.array_equal(w2, w) and np.array_equal(i2, i), "measurement depends on an earlier one with corrections", first=i, second=i2, earlier=kwargs)
    mon.event("corrected in between")
    if m == 0:
        return
    # rotations and sign
    rot = gen.rotation(rng, improper=bool(rng.integers(2)))
    rotated = rot.T @ t @ rot
    _, ir = PhononRamanSpectrum(nu, rotated).measure()
    mon.close(ir, i, "intensity changes under rotation", rtol=1e-9, atol=1e-10 * scale, tensors=t, rot=rot)
    sign = rng.choice([-1.0, 1.0], m)[:, None, None]
    _, isg = PhononRamanSpectrum(nu, sign * t).measure()
    mon.close(isg, i, "intensity changes with sign", rtol=1e-12, atol=1e-12 * scale)
    # quadratic scaling per phonon
    c = rng.uniform(-3, 3, m)
    _, ic = PhononRamanSpectrum(nu, c[:, None, None] * t).measure()
    mon.close(ic, c**2 * i, "quadratic scaling", rtol=1e-9, atol=1e-10 * scale * 9)
    # independence of other phonons
    k = int(rng.integers(m))
    w1, i1 = PhononRamanSpectrum(nu[k : k + 1], t[k : k + 1]).measure()
    mon.close(i1, i[k : k + 1], "intensity depends on other phonons", rtol=1e-12, atol=1e-12 * scale)
    mon.check(w1[0] == nu[k], "single phonon wavenumber")
    order = rng.permutation(m)
    wp, ip = PhononRamanSpectrum(nu[order], t[order]).measure()
    mon.check(np.array_equal(wp, nu[order]), "order of phonons kept")
    mon.close(ip, i[order], "order of phonons kept", rtol=1e-12, atol=1e-12 * scale)
    # accessors
    mon.check(np.array_equal(spectrum.raman_tensors, t) and np.array_equal(spectrum.phonon_wavenumbers, nu), "accessors return the data")
    # orientation-average (Gauss quadrature over rotations): 45a^2+4g^2 + 3g^2
    if index % 6 == 0:
        a2, g2 = _average(t)
        mon.close(i, 45 * a2 + 7 * g2, "numerical orientation average", rtol=1e-8, atol=1e-8 * scale)
        mon.event("averages")
    mon.nontrivial(kind, t)
    mon.sample(kind=kind, wavenumbers=nu, tensors=t, intensities=i)


def _average(t):
    """Invariants from explicit averages of |e.t.e'|^2 over orientations.

    <(z t z)^2> = (45 a^2 + 4 g^2)/45 and <(z t x)^2> = 3 g^2/45.
    """
    # product quadrature exact for degree-4 polynomials on SO(3)
    x, wx = np.polynomial.legendre.leggauss(4)
    phis = np.arange(6) * 2 * np.pi / 6
    par = np.zeros(len(t))
    perp = np.zeros(len(t))
    total = 0.0
    for ct, w in zip(x, wx):
        st = np.sqrt(1 - ct * ct)
        for phi in phis:
            z = np.array([st * np.cos(phi), st * np.sin(phi), ct])
            e1 = np.array([ct * np.cos(phi), ct * np.sin(phi), -st])
            e2 = np.cross(z, e1)
            for psi in phis:
                y = np.cos(psi) * e1 + np.sin(psi) * e2
                par += w * np.einsum("i,kij,j->k", z, t, z) ** 2
                perp += w * np.einsum("i,kij,j->k", z, t, y) ** 2
                total += w
    par, perp = par / total, perp / total
    g2 = 15 * perp
    a2 = par - 4 * g2 / 45
    return a2, g2


@case(quick=30, thorough=400)
def orientations(mon, rng, index):
    from ramannoodle.spectrum import PhononRamanSpectrum

    m = int(rng.integers(1, 5))
    spectrum = PhononRamanSpectrum(rng.uniform(10, 900, m), tensors(rng, "sym", m))
    bad = [
        "single_crystal", "polarized", "", "Polycrystalline", "poly", "polycrystal",
        "polycrystalline ", "xx", "z(xx)z",
    ][index % 9]
    mon.raises(NotImplementedError, f"unsupported orientation {bad!r} refused", spectrum.measure, bad)
    for arr in (np.array([0.0, 0, 1]), np.eye(3)):
        mon.raises((NotImplementedError, ValueError, TypeError), "array orientation refused", spectrum.measure, arr)
    mon.event("orientation_refusals")
    mon.nontrivial("orientation", bad)
    # wrong shapes
    mon.raises(ValueError, "mismatched lengths refused", PhononRamanSpectrum, np.ones(m + 1), tensors(rng, "sym", m))
    mon.raises(ValueError, "bad tensor shape refused", PhononRamanSpectrum, np.ones(m), rng.normal(size=(m, 3)))
    mon.raises(ValueError, "bad tensor shape refused", PhononRamanSpectrum, np.ones(m), rng.normal(size=(m, 3, 2)))
    mon.raises(ValueError, "bad wavenumber shape refused", PhononRamanSpectrum, np.ones((m, 1)), tensors(rng, "sym", m))
