"""P18: readers of calculation outputs return what the file says."""

import os
import shutil
import tempfile
from pathlib import Path

import numpy as np

from rnmon import gen, genfiles
from rnmon.core import case

RULE = "distinct synthetic calculation (elements, counts, lattice, potential-name layout, decoy blocks, MD mode) read by the real reader"
ASSUMPTIONS = [
    "standard atomic weights are compared to 4e-4 (tables differ in the last digits), those of elements without stable isotopes to 3e-2 (they have no standard weight); one weight per element is required exactly",
    "components of lattices and coordinates stay below 100 Å (beyond, VASP's columns overflow)",
    "an ab-initio block that directly follows a machine-learned one repeats that configuration; other mixtures of the two are not generated",
    "vasprun.xml trajectories are the unnamed structures at the top level, as in the files the package documents",
]
REQUIRED_EVENTS = ["outcar", "vasprun", "phonons", "imaginary modes", "ml frames", "shadow blocks", "polarizabilities", "rewritten"]


def close_positions(mon, got, want, what, tol=1e-12):
    mon.check(np.shape(got) == np.shape(want), what + " (shape)", got=np.shape(got), want=np.shape(want))
    mon.close(gen.pdist(got, want), 0, what, rtol=0, atol=tol, got=got, want=want)


def make(rng, index, big=False):
    if big:
        c = genfiles.calc(rng, n_types=int(rng.integers(1, 4)), max_count=40, kind="skew")
    elif index % 11 == 3:
        c = genfiles.calc(rng, n_types=int(rng.integers(8, 14)), max_count=2)
    else:
        c = genfiles.calc(rng, repeat_types=index % 5 == 1)
    return c


def folder_case(fn):
    def run(mon, rng, index):
        folder = tempfile.mkdtemp(prefix="rnmon_p18_")
        try:
            fn(mon, rng, index, folder)
        finally:
            shutil.rmtree(folder)

    run.__name__ = fn.__name__
    return run


@case(quick=60, thorough=4000)
@folder_case
def polarizability(mon, rng, index, folder):
    from ramannoodle.io.vasp import outcar, vasprun

    c = genfiles.add_polarizability(make(rng, index, big=index % 13 == 7), rng)
    decoys = bool(rng.integers(4))
    potcar = "ABC"[index % 3]
    a = genfiles.save(os.path.join(folder, "OUTCAR"), genfiles.outcar(c, rng, potcar, decoys))
    b = genfiles.save(os.path.join(folder, "v.xml"), genfiles.vasprun(c, rng, decoys))
    a, b = (Path(a), Path(b)) if rng.random() < 0.5 else (a, b)
    for reader, path, name in ((outcar, a, "outcar"), (vasprun, b, "vasprun")):
        pos, pol = reader.read_positions_and_polarizability(path)
        close_positions(mon, pos, c.positions, f"{name} positions (with polarizability)")
        mon.close(pol, c.polarizability, f"{name} dielectric tensor", rtol=1e-12, atol=1e-12)
        lat, numbers, pos, pol = reader.read_structure_and_polarizability(path)
        mon.close(lat, c.lattice, f"{name} lattice", rtol=1e-12, atol=1e-12, calc=c)
        mon.check(list(numbers) == c.numbers, f"{name} element sequence", got=numbers, want=c.numbers, potcar=potcar, titles=c.titles)
        close_positions(mon, pos, c.positions, f"{name} positions (with structure)")
        mon.close(pol, c.polarizability, f"{name} dielectric tensor (with structure)", rtol=1e-12, atol=1e-12)
        close_positions(mon, reader.read_positions(path), c.positions, f"{name} read_positions")
        mon.event(name)
        mon.event("polarizabilities")
        if c.n <= 20 and index % 3 == 0:
            ref = reader.read_ref_structure(path)
            mon.close(ref.lattice, c.lattice, f"{name} reference lattice", rtol=1e-12, atol=1e-12)
            mon.check(ref.atomic_numbers == c.numbers, f"{name} reference elements", got=ref.atomic_numbers, want=c.numbers)
            close_positions(mon, ref.positions, c.positions, f"{name} reference positions")
            mon.event("reference structures")
    mon.nontrivial("polarizability", c.types, c.counts, potcar, decoys)
    mon.sample(types=c.types, counts=c.counts, potcar=potcar, decoys=decoys, titles=c.titles)


@case(quick=60, thorough=3000)
@folder_case
def phonons(mon, rng, index, folder):
    from ramannoodle.io.vasp import outcar, vasprun

    c = make(rng, index)
    if c.n > 14:
        c = genfiles.calc(rng, n_types=2, max_count=5)
    if index == 20:
        c = genfiles.calc(rng, n_types=3, max_count=14, kind="skew")
    genfiles.add_phonons(c, rng)
    decoys = bool(rng.integers(4))
    potcar = "ABC"[index % 3]
    if index % 4 == 2:
        genfiles.add_polarizability(c, rng)
    a = genfiles.save(os.path.join(folder, "OUTCAR"), genfiles.outcar(c, rng, potcar, decoys))
    b = genfiles.save(os.path.join(folder, "v.xml"), genfiles.vasprun(c, rng, decoys))
    want = c.displacements()
    size = np.abs(want).max()
    for reader, path, name, nu in ((outcar, a, "outcar", c.wavenumbers), (vasprun, b, "vasprun", c.wavenumbers_xml)):
        ph = reader.read_phonons(path)
        mon.check(ph.wavenumbers.shape == nu.shape, f"{name} number of phonons", got=ph.wavenumbers.shape, want=nu.shape)
        mon.close(ph.wavenumbers, nu, f"{name} wavenumbers in file order, imaginary negative", rtol=1e-9, atol=1e-9)
        mon.event("imaginary modes", int((nu < 0).sum()))
        close_positions(mon, ph.ref_positions, c.positions, f"{name} reference positions")
        mon.check(ph.displacements.shape == want.shape, f"{name} displacement shape", got=ph.displacements.shape)
        tol = genfiles.weight_tolerance(c.symbols)[:, None] * np.abs(want) + 1e-12 * size
        mon.check((np.abs(ph.displacements - want) <= tol).all(), f"{name} displacements are eigenvectors over sqrt(mass)", got=ph.displacements, want=want, types=c.types)
        # exact up to the weight table: one factor per atom, common to all modes
        raw = c.eigenvectors @ np.linalg.inv(c.lattice)
        num = np.einsum("mkd,mkd->k", ph.displacements, raw)
        den = np.einsum("mkd,mkd->k", raw, raw)
        factor = num / np.where(den == 0, 1, den)
        for z in set(c.numbers):
            same = [k for k in range(c.n) if c.numbers[k] == z and den[k] > 0]
            mon.close(factor[same], np.full(len(same), factor[same[0]] if same else 0.0), f"{name} one weight per element", rtol=1e-9, atol=0)
        mon.close(ph.displacements, raw * factor[:, None], f"{name} displacements exactly proportional to the eigenvectors", rtol=1e-9, atol=1e-9 * size)
        mon.event(name)
        mon.event("phonons", len(nu))
    mon.nontrivial("phonons", c.types, c.counts, potcar, c.wavenumbers)
    mon.sample(types=c.types, counts=c.counts, imaginary=int((c.wavenumbers < 0).sum()), modes=len(c.wavenumbers))


@case(quick=70, thorough=4000)
@folder_case
def trajectories(mon, rng, index, folder):
    from ramannoodle.io.vasp import outcar, vasprun

    c = make(rng, index, big=index % 13 == 7)
    mode = ["ai", "ml", "mixed"][index % 3]
    genfiles.add_md(c, rng, frames=int(rng.choice([1, 2, 3, 5, 12, 40 if c.n < 20 else 4])), mode=mode)
    decoys = bool(rng.integers(4))
    potcar = "ABC"[(index // 3) % 3]
    a = genfiles.save(os.path.join(folder, "OUTCAR"), genfiles.outcar(c, rng, potcar, decoys))
    b = genfiles.save(os.path.join(folder, "v.xml"), genfiles.vasprun(c, rng, decoys))
    for reader, path, name, want in ((outcar, a, "outcar", c.md_truth), (vasprun, b, "vasprun", c.md_truth_xml)):
        traj = reader.read_trajectory(path)
        mon.check(len(traj) == len(want), f"{name} number of frames", got=len(traj), want=len(want), kinds=c.kinds)
        mon.close(traj.timestep, c.timestep, f"{name} timestep", rtol=1e-12, atol=0)
        got = traj.positions_ts
        mon.check(got.shape == want.shape, f"{name} frame shape", got=got.shape, want=want.shape)
        mon.close(gen.pdist(got, want), 0, f"{name} frames", rtol=0, atol=1e-9, kinds=c.kinds)
        mon.event(name)
    mon.event("ml frames", c.kinds.count("ml"))
    mon.event("shadow blocks", c.kinds.count("shadow"))
    if index % 4 == 0:
        close_positions(mon, outcar.read_positions(a), c.positions, "initial positions of an MD file (outcar)")
        close_positions(mon, vasprun.read_positions(b), c.positions, "initial positions of an MD file (vasprun)")
    mon.nontrivial("md", c.types, c.counts, c.kinds, mode)
    mon.sample(types=c.types, counts=c.counts, kinds=c.kinds, timestep=c.timestep)


@case(quick=12, thorough=500)
@folder_case
def rewritten(mon, rng, index, folder):
    """A path whose file is replaced by another calculation's, of the same size and age."""
    from ramannoodle.io.vasp import outcar, vasprun

    first = genfiles.calc(rng, n_types=int(rng.integers(1, 4)), max_count=3)
    kind = ["polarizability", "phonons", "md"][index % 3]
    calcs = []
    for _ in range(3):
        c = genfiles.Calc(first.types, first.counts, first.lattice, (first.positions + rng.uniform(-0.004, 0.004, (first.n, 3))) % 1)
        if kind == "polarizability":
            genfiles.add_polarizability(c, rng)
        elif kind == "phonons":
            genfiles.add_phonons(c, rng)
        else:
            genfiles.add_md(c, rng, frames=2)
        calcs.append(c)
    state = rng.bit_generator.state
    texts = {}
    for name, writer in (("outcar", genfiles.outcar), ("vasprun", genfiles.vasprun)):
        texts[name] = []
        for c in calcs:
            rng.bit_generator.state = state
            texts[name].append("\n".join(writer(c, rng)) + "\n")
        size = max(len(t.encode()) for t in texts[name])
        texts[name] = [t + "\n" * (size - len(t.encode())) for t in texts[name]]
    for k in (0, 1, 2, 0):
        c = calcs[k]
        for name, reader in (("outcar", outcar), ("vasprun", vasprun)):
            path = os.path.join(folder, name)
            with open(path, "wb") as file:
                file.write(texts[name][k].encode())
            os.utime(path, (1.6e9, 1.6e9))
            for again in range(2):
                if kind == "polarizability":
                    pos, pol = reader.read_positions_and_polarizability(path)
                    mon.close(pol, c.polarizability, f"{name} dielectric tensor of a rewritten file", rtol=1e-12, atol=1e-12)
                    close_positions(mon, pos, c.positions, f"{name} positions of a rewritten file")
                    pos[:], pol[:] = 0, 0
                    lat, numbers, pos, pol = reader.read_structure_and_polarizability(path)
                    mon.close(lat, c.lattice, f"{name} lattice of a rewritten file", rtol=1e-12, atol=1e-12)
                    mon.check(list(numbers) == c.numbers, f"{name} element sequence of a rewritten file", got=numbers, want=c.numbers)
                    mon.close(pol, c.polarizability, f"{name} dielectric tensor of a rewritten file (with structure)", rtol=1e-12, atol=1e-12)
                    close_positions(mon, pos, c.positions, f"{name} positions of a rewritten file (with structure)")
                    lat[:], pos[:], pol[:] = 0, 0, 0
                    numbers.clear()
                elif kind == "phonons":
                    ph = reader.read_phonons(path)
                    mon.close(ph.wavenumbers, c.wavenumbers if name == "outcar" else c.wavenumbers_xml, f"{name} wavenumbers of a rewritten file", rtol=1e-9, atol=1e-9)
                    mon.close(ph.displacements, c.displacements(), f"{name} displacements of a rewritten file", rtol=3e-2, atol=1e-9)
                else:
                    want = c.md_truth if name == "outcar" else c.md_truth_xml
                    mon.close(gen.pdist(reader.read_trajectory(path).positions_ts, want), 0, f"{name} frames of a rewritten file", rtol=0, atol=1e-9)
                pos = reader.read_positions(path)
                close_positions(mon, pos, c.positions, f"{name} read_positions of a rewritten file")
                pos[:] = 0
                close_positions(mon, reader.read_ref_structure(path).positions, c.positions, f"{name} reference positions of a rewritten file")
    mon.event("rewritten")
    mon.nontrivial("rewritten", kind, first.types, first.counts)


@case(quick=6, thorough=60)
@folder_case
def every_element(mon, rng, index, folder):
    """Every element symbol, in every potential-name layout, is recognised."""
    from ramannoodle.io.vasp import outcar, vasprun

    pool = [s for s in genfiles.elements.NUMBER]
    order = [str(s) for s in rng.permutation(pool)]
    chunk = 30
    for k in range(0, len(order), chunk):
        types = order[k : k + chunk]
        n = len(types)
        pos = (np.arange(n)[:, None] * np.array([0.618034, 0.324718, 0.754878])) % 1
        c = genfiles.Calc(types, [1] * n, gen.lattice(rng, "skew") * 3, pos)
        genfiles.add_polarizability(c, rng)
        potcar = "ABC"[(index + k // chunk) % 3]
        a = genfiles.save(os.path.join(folder, "O%d" % k), genfiles.outcar(c, rng, potcar))
        b = genfiles.save(os.path.join(folder, "V%d" % k), genfiles.vasprun(c, rng))
        for reader, path in ((outcar, a), (vasprun, b)):
            _, numbers, got, _ = reader.read_structure_and_polarizability(path)
            mon.check(list(numbers) == c.numbers, f"{reader.__name__}: all elements", got=numbers, want=c.numbers, titles=c.titles)
            close_positions(mon, got, c.positions, "positions")
        mon.event("elements", n)
        mon.nontrivial("elements", types)
