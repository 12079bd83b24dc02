"""P19: all routes to the same data agree."""

import os
import shutil
import tempfile
from pathlib import Path

import numpy as np

from rnmon import gen, genfiles
from rnmon.core import case

RULE = "distinct synthetic calculation read through at least two different routes"
ASSUMPTIONS = [
    "routes are compared within the printed precision of the coarser format (OUTCAR MD frames: 5 decimals in Å)",
    "components of lattices and coordinates stay below 100 Å",
]
REQUIRED_EVENTS = ["dialects", "routes", "unsupported formats", "pymatgen"]


def folder_case(fn):
    def run(mon, rng, index):
        folder = tempfile.mkdtemp(prefix="rnmon_p19_")
        try:
            fn(mon, rng, index, folder)
        finally:
            shutil.rmtree(folder)

    run.__name__ = fn.__name__
    return run


def periodic(mon, a, b, what, tol):
    mon.check(np.shape(a) == np.shape(b), what + " (shape)", got=np.shape(a), want=np.shape(b))
    mon.close(gen.pdist(a, b), 0, what, rtol=0, atol=tol, got=a, want=b)


@case(quick=90, thorough=6000)
@folder_case
def dialects(mon, rng, index, folder):
    """Equivalent spellings of a POSCAR describe the same structure."""
    from ramannoodle.io import generic
    from ramannoodle.io.vasp import poscar, xdatcar

    c = genfiles.calc(rng, repeat_types=index % 3 == 1)
    scale = [1.0, 2.0, 0.5291772, 5.43, -1.0, 1e-2, 1e3, -2.0, 3][index % 9]
    if scale < 0:
        scale = -abs(np.linalg.det(c.lattice)) * (1.0 if scale == -1.0 else rng.uniform(0.3, 3))
    cartesian, selective, trailing = bool(rng.integers(2)), bool(rng.integers(2)), bool(rng.integers(2))
    extra = []
    tail = ["nothing", "velocities", "blank", "predictor"][int(rng.integers(4))]
    if tail == "velocities":
        extra = [""] + ["  0.1  0.2  0.3"] * c.n
    elif tail == "blank":
        extra = ["", " ", ""]
    elif tail == "predictor":
        extra = ["", "Direct", "1 2 3"]
    lines, lattice = genfiles.poscar(c, rng, scale=scale, cartesian=cartesian, selective=selective, trailing=trailing, extra=extra,
                                     label=["system", "", "Direct", "1 2 3", "Ti O"][int(rng.integers(5))])
    newline = ["\n", "\r\n", "\n"][int(rng.integers(3))]
    if rng.random() < 0.3:
        lines = [line.replace("  ", "\t", 1) if k not in (0, 7, 8) else line for k, line in enumerate(lines)]
    path = genfiles.save(os.path.join(folder, "POSCAR"), lines, newline)
    info = dict(scale=scale, cartesian=cartesian, selective=selective, trailing=trailing, tail=tail, lines=lines[:12])
    size = np.abs(lattice).max()
    lat, numbers, pos = poscar.read_structure(path)
    mon.close(lat, lattice, "lattice of this spelling", rtol=1e-9, atol=1e-9 * size, **info)
    mon.check(list(numbers) == c.numbers, "elements of this spelling", got=numbers, want=c.numbers)
    periodic(mon, pos, c.positions, "positions of this spelling", 1e-9)
    mon.check(np.array_equal(poscar.read_positions(path), pos), "read_positions agrees", **info)
    for fmt in ("poscar", "xdatcar"):
        mon.check(np.array_equal(generic.read_positions(path, fmt), pos), f"generic read_positions ({fmt}) agrees", **info)
    if c.n <= 12 and size < 200 and abs(np.linalg.det(lat)) > 1:
        try:
            ref = poscar.read_ref_structure(path)
        except Exception as exc:
            if type(exc).__name__ != "SymmetryException":
                raise
            mon.skip("no symmetry found")
        else:
            mon.check(np.array_equal(ref.lattice, lat) and np.array_equal(ref.positions, pos) and ref.atomic_numbers == list(numbers), "reference structure agrees", **info)
            ref = generic.read_ref_structure(path, "poscar")
            mon.check(np.array_equal(ref.lattice, lat) and np.array_equal(ref.positions, pos), "generic reference structure agrees", **info)
    if tail in ("nothing", "blank") and not selective:
        ts = xdatcar.read_positions_ts(path)
        mon.check(ts.shape == (1,) + pos.shape and np.array_equal(ts[0], pos), "the same file as a one-frame trajectory", **info)
    mon.event("dialects")
    mon.nontrivial("dialect", c.types, c.counts, scale, cartesian, selective, trailing, tail)
    mon.sample(**info)


@case(quick=40, thorough=2500)
@folder_case
def structures(mon, rng, index, folder):
    """OUTCAR, vasprun.xml, POSCAR and XDATCAR of one calculation."""
    from ramannoodle.io import generic
    from ramannoodle.io.vasp import outcar, poscar, vasprun

    c = genfiles.add_polarizability(genfiles.calc(rng, repeat_types=index % 4 == 0), rng)
    names = file_names(rng, index, ["OUTCAR", "vasprun.xml", "POSCAR", "XDATCAR"])
    paths = {
        "outcar": genfiles.save(os.path.join(folder, names[0]), genfiles.outcar(c, rng, "ABC"[index % 3])),
        "vasprun.xml": genfiles.save(os.path.join(folder, names[1]), genfiles.vasprun(c, rng)),
        "poscar": genfiles.save(os.path.join(folder, names[2]), genfiles.poscar(c, rng)[0]),
        "xdatcar": genfiles.save(os.path.join(folder, names[3]), genfiles.xdatcar(c, [c.positions, (c.positions + 0.1) % 1])),
    }
    specific = {"outcar": outcar, "vasprun.xml": vasprun, "poscar": poscar, "xdatcar": poscar}
    refs = {}
    for fmt, path in paths.items():
        arg = Path(path) if rng.random() < 0.5 else path
        a = generic.read_positions(arg, fmt)
        mon.check(np.array_equal(a, specific[fmt].read_positions(arg)), f"{fmt}: generic and specific positions agree")
        periodic(mon, a, c.positions, f"{fmt}: positions", 1e-9)
        if c.n <= 16:
            ref = generic.read_ref_structure(arg, fmt)
            other = specific[fmt].read_ref_structure(arg)
            mon.check(np.array_equal(ref.lattice, other.lattice) and np.array_equal(ref.positions, other.positions) and ref.atomic_numbers == other.atomic_numbers, f"{fmt}: generic and specific reference structures agree")
            mon.close(ref.lattice, c.lattice, f"{fmt}: lattice", rtol=1e-9, atol=2e-9)
            mon.same(ref.atomic_numbers, c.numbers, f"{fmt}: elements")
            refs[fmt] = ref
    if c.n <= 16:
        groups = {fmt: sorted((k, tuple(v)) for k, v in ref.get_equivalent_atom_dict().items()) for fmt, ref in refs.items()}
        mon.check(len(set(map(str, groups.values()))) == 1, "equivalent atoms agree between formats", groups=groups)
    for fmt in ("outcar", "vasprun.xml"):
        x = generic.read_positions_and_polarizability(paths[fmt], fmt)
        y = specific[fmt].read_positions_and_polarizability(paths[fmt])
        z = generic.read_structure_and_polarizability(paths[fmt], fmt)
        w = specific[fmt].read_structure_and_polarizability(paths[fmt])
        mon.check(np.array_equal(x[0], y[0]) and np.array_equal(x[1], y[1]), f"{fmt}: generic and specific polarizability agree")
        mon.check(all(np.array_equal(p, q) for p, q in zip(z, w)), f"{fmt}: generic and specific structure+polarizability agree")
        mon.check(np.array_equal(z[2], x[0]) and np.array_equal(z[3], x[1]), f"{fmt}: both polarizability readers agree")
        mon.close(x[1], c.polarizability, f"{fmt}: polarizability", rtol=1e-9, atol=1e-9)
        mon.close(z[0], c.lattice, f"{fmt}: lattice with polarizability", rtol=1e-9, atol=1e-9)
        mon.check(list(z[1]) == c.numbers, f"{fmt}: elements with polarizability")
    mon.event("routes", len(paths))
    mon.nontrivial("structures", c.types, c.counts, index % 3)
    mon.sample(types=c.types, counts=c.counts)


@case(quick=30, thorough=2000)
@folder_case
def dynamics(mon, rng, index, folder):
    """Phonons and trajectories from OUTCAR, vasprun.xml, XDATCAR and pymatgen."""
    from ramannoodle.io import generic
    from ramannoodle.io.vasp import outcar, vasprun, xdatcar

    c = genfiles.calc(rng, n_types=int(rng.integers(1, 4)), max_count=3)
    genfiles.add_phonons(c, rng)
    a = genfiles.save(os.path.join(folder, "OUTCAR"), genfiles.outcar(c, rng, "ABC"[index % 3]))
    b = genfiles.save(os.path.join(folder, "v.xml"), genfiles.vasprun(c, rng))
    pa, pb = generic.read_phonons(a, "outcar"), generic.read_phonons(b, "vasprun.xml")
    for generic_ph, ph in ((pa, outcar.read_phonons(a)), (pb, vasprun.read_phonons(b))):
        mon.check(all(np.array_equal(getattr(generic_ph, k), getattr(ph, k)) for k in ("wavenumbers", "displacements", "ref_positions")), "generic and specific phonons agree")
    mon.close(pa.wavenumbers, pb.wavenumbers, "wavenumbers agree between formats", rtol=1e-6, atol=1e-5)
    periodic(mon, pa.ref_positions, pb.ref_positions, "phonon reference positions agree", 1e-12)
    mon.close(pa.displacements, pb.displacements, "phonon displacements agree", rtol=1e-9, atol=1e-12)

    m = genfiles.calc(rng, n_types=int(rng.integers(1, 4)), max_count=5)
    genfiles.add_md(m, rng, frames=int(rng.integers(1, 12)), mode=["ai", "ml", "mixed"][index % 3])
    names = file_names(rng, index, ["OUTCAR_md", "v_md.xml", "XDATCAR"])
    a = genfiles.save(os.path.join(folder, names[0]), genfiles.outcar(m, rng, "ABC"[index % 3]))
    b = genfiles.save(os.path.join(folder, names[1]), genfiles.vasprun(m, rng))
    x = genfiles.save(os.path.join(folder, names[2]), genfiles.xdatcar(m, m.md_truth_xml))
    ta, tb = generic.read_trajectory(a, "outcar"), generic.read_trajectory(b, "vasprun.xml")
    tx = xdatcar.read_trajectory(x, m.timestep)
    for p, q in ((ta, outcar.read_trajectory(a)), (tb, vasprun.read_trajectory(b))):
        mon.check(np.array_equal(p.positions_ts, q.positions_ts) and p.timestep == q.timestep, "generic and specific trajectories agree")
    tol = 2e-5 * np.abs(np.linalg.inv(m.lattice)).sum(axis=0).max() + 1e-7
    periodic(mon, ta.positions_ts, tb.positions_ts, "trajectory agrees between OUTCAR and vasprun.xml", tol)
    periodic(mon, tx.positions_ts, tb.positions_ts, "trajectory agrees between XDATCAR and vasprun.xml", 1e-9)
    mon.check(ta.timestep == tb.timestep == tx.timestep, "timesteps agree", got=(ta.timestep, tb.timestep, tx.timestep))
    mon.event("routes", 5)
    mon.nontrivial("dynamics", c.types, m.types, m.kinds)


@case(quick=40, thorough=2500)
@folder_case
def pymatgen_routes(mon, rng, index, folder):
    """pymatgen objects give what files give."""
    import pymatgen.core
    from pymatgen.core.trajectory import Trajectory as PTrajectory

    from ramannoodle.io import generic
    from ramannoodle.io import pymatgen as rp

    c = genfiles.calc(rng, repeat_types=index % 4 == 0, max_count=3)
    structure = pymatgen.core.Structure(c.lattice, c.symbols, c.positions)
    lat, numbers, pos = rp.get_structure(structure)
    mon.close(lat, c.lattice, "pymatgen lattice", rtol=1e-12, atol=1e-12)
    mon.check(list(numbers) == c.numbers, "pymatgen elements", got=numbers, want=c.numbers)
    periodic(mon, pos, c.positions, "pymatgen positions", 1e-12)
    mon.check(np.array_equal(rp.get_positions(structure), pos), "pymatgen get_positions agrees")
    path = genfiles.save(os.path.join(folder, "POSCAR"), genfiles.poscar(c, rng)[0])
    if c.n <= 14:
        ref, other = rp.construct_ref_structure(structure), generic.read_ref_structure(path, "poscar")
        mon.check(ref.atomic_numbers == other.atomic_numbers, "reference elements agree")
        mon.close(ref.lattice, other.lattice, "reference lattices agree", rtol=1e-9, atol=1e-9)
        periodic(mon, ref.positions, other.positions, "reference positions agree", 1e-9)
    # trajectories: positions or displacements, fractional
    frames = int(rng.integers(1, 8))
    walk = c.positions + np.cumsum(rng.normal(size=(frames, c.n, 3)) * 0.05, axis=0)
    dt = float(rng.uniform(0.1, 5))
    plain = PTrajectory(species=c.symbols, coords=walk.copy(), lattice=c.lattice, constant_lattice=True)
    got = rp.construct_trajectory(plain, dt)
    mon.check(len(got) == frames and got.timestep == dt, "pymatgen trajectory length and timestep")
    periodic(mon, got.positions_ts, walk, "pymatgen trajectory", 1e-9)
    steps = np.diff(walk, axis=0, prepend=walk[:1])
    moved = PTrajectory(species=c.symbols, coords=steps, lattice=c.lattice, constant_lattice=True, coords_are_displacement=True, base_positions=walk[0])
    got = rp.construct_trajectory(moved, dt)
    periodic(mon, got.positions_ts, walk, "pymatgen trajectory stored as displacements", 1e-9)
    if frames > 1:
        plain.to_displacements()
        got = rp.construct_trajectory(plain, dt)
        periodic(mon, got.positions_ts, walk, "pymatgen trajectory converted to displacements", 1e-9)
    varying = PTrajectory(species=c.symbols, coords=walk, lattice=np.array([c.lattice] * frames), constant_lattice=False)
    mon.raises(ValueError, "varying lattice refused", rp.construct_trajectory, varying, dt)
    for fn, args in ((rp.get_structure, ([1],)), (rp.get_positions, (None,)), (rp.construct_ref_structure, ("x",)), (rp.construct_trajectory, (walk, dt))):
        mon.raises(TypeError, "wrong type refused", fn, *args)
    mon.event("pymatgen")
    mon.nontrivial("pymatgen", c.types, c.counts, frames)
    mon.sample(types=c.types, counts=c.counts, frames=frames)


@case(quick=15, thorough=800)
@folder_case
def datasets(mon, rng, index, folder):
    """Datasets from OUTCAR files, vasprun.xml files and pymatgen structures."""
    import pymatgen.core

    from ramannoodle.io import generic
    from ramannoodle.io import pymatgen as rp
    from ramannoodle.io.vasp import outcar, vasprun

    base = genfiles.calc(rng, max_count=3)
    calcs, outs, xmls = [], [], []
    # more than nine files now and then, named in any order
    number = int(rng.integers(1, 6)) if rng.random() < 0.8 else int(rng.integers(10, 14))
    names = [f"{rng.choice(['', 'run', 'A', 'z'])}{k}" for k in rng.permutation(number)]
    for k in range(number):
        c = genfiles.Calc(base.types, base.counts, base.lattice, (base.positions + rng.normal(size=(base.n, 3)) * 0.02) % 1)
        genfiles.add_polarizability(c, rng)
        calcs.append(c)
        outs.append(genfiles.save(os.path.join(folder, f"O{names[k]}"), genfiles.outcar(c, rng, "ABC"[k % 3])))
        xmls.append(genfiles.save(os.path.join(folder, f"V{names[k]}"), genfiles.vasprun(c, rng)))
    structures = [pymatgen.core.Structure(c.lattice, c.symbols, c.positions) for c in calcs]
    pols = np.array([c.polarizability for c in calcs])
    outs_arg = [Path(p) for p in outs] if rng.random() < 0.5 else outs
    one = len(calcs) == 1
    sets = {
        "outcar": generic.read_polarizability_dataset(outs[0] if one else outs_arg, "outcar"),
        "vasprun": generic.read_polarizability_dataset(xmls, "vasprun.xml"),
        "outcar specific": outcar.read_polarizability_dataset(outs_arg),
        "vasprun specific": vasprun.read_polarizability_dataset(xmls[0] if one else xmls),
        "pymatgen": rp.construct_polarizability_dataset(structures, pols),
    }
    want = np.array([c.positions for c in calcs])
    for name, ds in sets.items():
        mon.check(len(ds) == len(calcs), f"{name}: number of samples", got=len(ds))
        mon.check(list(ds.atomic_numbers) == base.numbers or np.array_equal(np.asarray(ds.atomic_numbers)[0], base.numbers) or np.array_equal(ds.atomic_numbers, base.numbers), f"{name}: elements", got=ds.atomic_numbers)
        periodic(mon, np.asarray(ds.positions), want, f"{name}: positions in order", 2e-7)
        mon.close(np.asarray(ds.polarizabilities), pols, f"{name}: polarizabilities in order", rtol=1e-6, atol=1e-6)
        periodic(mon, np.asarray(ds.positions), np.asarray(sets["outcar"].positions), f"{name}: same positions as outcar", 2e-7)
    # an incompatible member is refused whatever the route
    from ramannoodle.exceptions import IncompatibleStructureException

    odd = int(rng.integers(1, number + 1))
    lattice, types, counts, what = base.lattice.copy(), list(base.types), list(base.counts), str(rng.choice(["sheared", "stretched", "rotated", "elements", "order"]))
    i, j = rng.permutation(3)[:2]
    if what == "sheared":  # the volume stays
        lattice[i] += float(rng.choice([0.003, 0.1])) * lattice[j]
    elif what == "stretched":
        lattice[i] *= 1 + float(rng.choice([0.003, -0.1]))
    elif what == "rotated":  # distances and angles stay
        lattice = lattice @ gen.rotation(rng)
    elif what == "order" and len(set(types)) > 1:
        types, counts = types[1:] + types[:1], counts[1:] + counts[:1]
    else:
        types[int(rng.integers(len(types)))] = "Xe" if types[0] != "Xe" else "Kr"
    bad = genfiles.Calc(types, counts, lattice, base.positions)
    genfiles.add_polarizability(bad, rng)
    if (np.abs(bad.lattice - base.lattice).max() > 1e-3 or bad.numbers != base.numbers) and np.abs(bad.lattice).max() < 100:
        bads = [genfiles.save(os.path.join(folder, "bad_O"), genfiles.outcar(bad, rng)), genfiles.save(os.path.join(folder, "bad_V"), genfiles.vasprun(bad, rng))]
        for good, one, fn, name in (
            (outs, bads[0], outcar.read_polarizability_dataset, "outcar"),
            (xmls, bads[1], vasprun.read_polarizability_dataset, "vasprun"),
            (xmls, bads[1], lambda paths: generic.read_polarizability_dataset(paths, "vasprun.xml"), "generic"),
            (structures, pymatgen.core.Structure(bad.lattice, bad.symbols, bad.positions), lambda s: rp.construct_polarizability_dataset(s, np.zeros((len(s), 3, 3))), "pymatgen"),
        ):
            mon.raises(IncompatibleStructureException, f"{name}: incompatible member refused ({what})", fn, [*good[:odd], one, *good[odd:]])
        mon.event("refused: " + what)
    mon.event("routes", len(sets))
    mon.nontrivial("datasets", base.types, len(calcs))


def file_names(rng, index, usual):
    """The format is the one asked for, however the file is called."""
    if index % 2 == 0:
        return usual
    unusual = ["OUTCAR", "vasprun.xml", "POSCAR", "XDATCAR", "run.xml", "x.vasp", "a b.dat", "Ä1", ".hidden", "x.poscar", "OUTCAR.xml", "CONTCAR"]
    return [unusual[k] for k in rng.permutation(len(unusual))[: len(usual)]]


@case(quick=12, thorough=100)
@folder_case
def unsupported(mon, rng, index, folder):
    """Operations refuse formats they do not support, whatever the file holds."""
    from ramannoodle.io import generic

    c = genfiles.add_polarizability(genfiles.calc(rng), rng)
    path = genfiles.save(os.path.join(folder, "f"), genfiles.outcar(c, rng))
    rest = ["OUTCAR", "vasprun.xml", "POSCAR", "XDATCAR", "run.xml", "x.vasp"]
    for k, name in enumerate(rest):
        genfiles.save(os.path.join(folder, name), [genfiles.outcar(c, rng), genfiles.vasprun(c, rng), genfiles.poscar(c, rng)[0]][(k + index) % 3])
    supported = {
        "read_phonons": ("outcar", "vasprun.xml"),
        "read_trajectory": ("outcar", "vasprun.xml"),
        "read_positions_and_polarizability": ("outcar", "vasprun.xml"),
        "read_structure_and_polarizability": ("outcar", "vasprun.xml"),
        "read_polarizability_dataset": ("outcar", "vasprun.xml"),
        "read_positions": ("outcar", "vasprun.xml", "poscar", "xdatcar"),
        "read_ref_structure": ("outcar", "vasprun.xml", "poscar", "xdatcar"),
    }
    formats = ["outcar", "vasprun.xml", "poscar", "xdatcar", "OUTCAR", "vasprun", "Poscar", "cif", "", "outcar ", "xml"]
    for name, ok in supported.items():
        for fmt in formats:
            if fmt in ok:
                continue
            for target in (path, os.path.join(folder, "missing"), os.path.join(folder, rest[int(rng.integers(len(rest)))])):
                exc = mon.raises(ValueError, f"{name} with format {fmt!r} refused", getattr(generic, name), target, fmt)
                mon.check("support" in str(exc), "the error says the format is unsupported", got=str(exc))
                mon.event("unsupported formats")
    new = os.path.join(folder, "new")
    for fmt in ("outcar", "vasprun.xml", "cif", "", "POSCAR"):
        exc = mon.raises(ValueError, f"write_structure with {fmt!r} refused", generic.write_structure, c.lattice, c.numbers, c.positions, new, fmt)
        mon.check("support" in str(exc), "the error says the format is unsupported", got=str(exc))
        mon.raises(ValueError, f"write_trajectory with {fmt!r} refused", generic.write_trajectory, c.lattice, c.numbers, c.positions[None], new, fmt)
        mon.check(not os.path.exists(new), "nothing written")
    mon.raises(ValueError, "write_trajectory as poscar refused", generic.write_trajectory, c.lattice, c.numbers, c.positions[None], new, "poscar")
    mon.nontrivial("unsupported", index)
