"""P14: laser and Bose-Einstein corrections."""

import itertools

import numpy as np

from rnmon import gen
from rnmon.checks import p13
from rnmon.core import case

RULE = "distinct (spectrum type, correction combination, wavelength, temperature) with non-zero intensities"
ASSUMPTIONS = [
    "physical constants as documented: c=29979245800 cm/s, h=4.1357e-15 eV s and "
    "k=8.617333262e-5 eV/K to 1e-4 relative accuracy of the exponent",
    "zero-wavenumber phonons (infinite factors) are compared only for being non-finite or equal",
]
REQUIRED_EVENTS = ["phonon", "md", "refusals"]

HC = 29979245800.0 * 4.135667696e-15  # eV cm
KB = 8.617333262e-5


def laser(nu, wavelength):
    return ((nu - 1e7 / wavelength) / 1e4) ** 4 / nu


def bose(nu, temperature):
    return 1 / (1 - np.exp(-nu * HC / (KB * temperature)))


def spectra(rng, index):
    from ramannoodle.spectrum import MDRamanSpectrum, PhononRamanSpectrum

    if index % 2 == 0:
        m = int(rng.choice([1, 2, 9, 60, 1500], p=[0.24, 0.24, 0.24, 0.2, 0.08]))
        nu = rng.uniform(1, 2000, m)
        if index % 4 == 0:
            nu = np.concatenate([nu, -rng.uniform(1, 300, 2)])
        if index % 12 == 0:
            nu[0] = 1e7 / 532 * 0.9  # close to the laser line
        t = rng.normal(size=(len(nu), 3, 3))
        return "phonon", PhononRamanSpectrum(nu, t + t.transpose(0, 2, 1))
    s = int(rng.choice([5, 24, 101, 2600], p=[0.3, 0.3, 0.3, 0.1]))
    return "md", MDRamanSpectrum(p13.series(rng, "noise", s), float(rng.choice([0.5, 1, 4.0])))


@case(quick=160, thorough=15000)
def corrections(mon, rng, index):
    kind, spec = spectra(rng, index)
    w0, i0 = spec.measure()
    lam = float(rng.choice([405, 514.5, 522, 532, 633, 785, 1064, rng.uniform(100, 3000), 1e-2 * rng.uniform(1, 9)]))
    temp = float(rng.choice([1.0, 10, 77, 300, 298.15, 1000, 1e4, rng.uniform(5, 2000)]))
    if index % 9 == 0:
        lam, temp = int(lam) + 1, int(temp) + 1
    # parameters without effect
    for args in (dict(laser_wavelength=lam), dict(temperature=temp), dict(laser_wavelength=lam, temperature=temp)):
        w, i = spec.measure(**args)
        mon.check(np.array_equal(w, w0) and np.array_equal(i, i0), "correction parameters have an effect while off", **args)
    combos = [(lc, bc) for lc, bc in itertools.product([False, True], repeat=2)]
    for lc, bc in combos:
        w, i = spec.measure(laser_correction=lc, laser_wavelength=lam, bose_einstein_correction=bc, temperature=temp)
        mon.check(np.array_equal(w, w0), "corrections change wavenumbers", got=w, want=w0)
        with np.errstate(all="ignore"):
            want = i0.copy()
            if lc:
                want = want * laser(w0, lam)
            if bc:
                want = want * bose(w0, temp)
        x = np.abs(w0 * HC / (KB * temp))
        rtol = (2e-4 + 1e-4 * x) if bc else np.full(len(w0), 1e-9)
        with np.errstate(all="ignore"):
            fine = np.abs(i - want) <= rtol * np.abs(want) + 1e-300
        mon.check(np.shape(i) == np.shape(want), "one intensity per wavenumber")
        mon.check(fine.all(), f"{kind}: corrected intensity (laser={lc}, bose={bc})", got=i, want=want, wavelength=lam, temperature=temp, wavenumbers=w0)
        if bc and not lc:
            # exact law with the exponent's constants factored out: fit exponent, compare shape
            ratio = i / np.where(i0 == 0, np.nan, i0)
            x = np.abs(w0 * HC / (KB * temp))
            ok = (x > 1e-6) & (x < 20) & np.isfinite(ratio)
            if ok.any():
                got = -np.log1p(-1 / ratio[ok])
                mon.close(got, (w0 * HC / (KB * temp))[ok], "Bose-Einstein exponent", rtol=3e-4, atol=1e-6)
                mon.event("bose_exponents", int(ok.sum()))
    # default parameter values
    w, i = spec.measure(laser_correction=True)
    mon.close(i, i0 * laser(w0, 522), "default wavelength 522 nm", rtol=1e-9, atol=0)
    w, i = spec.measure(bose_einstein_correction=True)
    mon.close(i, i0 * bose(w0, 300), "default temperature 300 K", rtol=2e-4, atol=0)
    # uncorrected afterwards
    w, i = spec.measure()
    mon.check(np.array_equal(i, i0), "corrections leak into later measurements", got=i, want=i0)
    mon.event(kind)
    mon.nontrivial(kind, lam, temp, w0)
    mon.sample(kind=kind, wavelength=lam, temperature=temp, wavenumbers=w0)


@case(quick=30, thorough=400)
def refusals(mon, rng, index):
    kind, spec = spectra(rng, index)
    bad = [0, -1, -300.0, -1e-9, 0.0, -522][index % 6]
    errors = (ValueError, ZeroDivisionError)
    mon.raises(errors, "non-positive wavelength refused", spec.measure, laser_correction=True, laser_wavelength=bad)
    mon.raises(ValueError, "non-positive temperature refused", spec.measure, bose_einstein_correction=True, temperature=bad)
    mon.raises(ValueError, "non-positive temperature refused", spec.measure, laser_correction=True, bose_einstein_correction=True, temperature=bad)
    mon.raises(errors, "non-positive wavelength refused", spec.measure, laser_correction=True, bose_einstein_correction=True, laser_wavelength=bad)
    mon.raises(errors, "numpy non-positive wavelength refused", spec.measure, laser_correction=True, laser_wavelength=np.float64(bad))
    mon.raises(ValueError, "numpy non-positive temperature refused", spec.measure, bose_einstein_correction=True, temperature=np.float64(bad))
    # but ignored while off
    w0, i0 = spec.measure()
    w, i = spec.measure(laser_wavelength=bad, temperature=bad)
    mon.check(np.array_equal(i, i0), "ignored while off")
    mon.event("refusals")
    mon.nontrivial("refusal", kind, bad)
