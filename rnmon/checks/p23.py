"""P23: training datasets keep samples aligned and scaling invertible."""

import os
import shutil
import tempfile
from pathlib import Path

import numpy as np

from rnmon import elements, gen, genfiles
from rnmon.core import case

RULE = "distinct (sample set, scaling history) or (file/structure list) from which a dataset was built and inspected"
ASSUMPTIONS = [
    "positions, lattices and targets are stored in torch's default precision: compared to 2e-6 relative (float32)",
    "scalings with zero standard deviation in a component are only required to give finite targets there",
    "lattices within 1e-7 of each other are the same, beyond 1e-2 Å they differ",
]
REQUIRED_EVENTS = [
    "constant components", "single samples", "rescaled", "shared scalings", "items", "loaders", "refused", "conversions",
    "double precision", "files", "incompatible files", "structures", "incompatible structures", "trained",
]
PAIRS = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]


def vec(t):
    return np.stack([np.asarray(t)[..., i, j] for i, j in PAIRS], axis=-1)


def tolerance():
    import torch

    return 2e-6 if torch.get_default_dtype() == torch.float32 else 1e-12


def sample_set(rng, index):
    n = int(rng.choice([1, 2, 5, 12]))
    s = int([1, 2, 3, 10, 64, 150][index % 6])
    kind = ["plain", "constant", "one constant", "large mean", "tiny spread", "repeated", "asymmetric"][(index // 2) % 7]
    pols = rng.normal(size=(s, 3, 3))
    pols = (pols + pols.transpose(0, 2, 1)) / 2
    if kind == "constant":
        pols = np.repeat(gen.sym_tensor(rng)[None], s, axis=0)
    elif kind == "one constant":
        i, j = PAIRS[int(rng.integers(6))]
        pols[:, i, j] = pols[:, j, i] = rng.choice([0.0, 0.1, 3.3])
    elif kind == "large mean":
        pols = pols + 40 * np.eye(3)
    elif kind == "tiny spread":
        pols = pols * 1e-4 + 5 * np.eye(3)
    elif kind == "repeated":
        pols[:] = pols[rng.integers(0, s, s)]
    elif kind == "asymmetric":
        pols = rng.normal(size=(s, 3, 3))
    positions = rng.random((s, n, 3)) if rng.random() < 0.7 else rng.normal(size=(s, n, 3)) * 2
    numbers = [int(z) for z in rng.integers(1, 90, n)]
    return kind, gen.lattice(rng), numbers, positions, pols


def inspect(mon, data, lattice, numbers, positions, pols, mean, stddev, rng, what, **info):
    """Everything a dataset reports about its samples, and its targets for a scaling."""
    import torch

    tol = tolerance()
    s, n = positions.shape[:2]
    mon.check(len(data) == s and data.num_samples == s, what + ": number of samples", got=len(data), want=s)
    mon.check(data.num_atoms == n, what + ": number of atoms", got=data.num_atoms, want=n)
    mon.check([int(z) for z in data.atomic_numbers] == list(numbers), what + ": elements in order", got=data.atomic_numbers, want=numbers)
    size = 1 + np.abs(positions).max()
    mon.close(data.positions, positions, what + ": positions in order", rtol=tol, atol=1e-9 * size, **info)
    mon.close(data.polarizabilities, pols, what + ": polarizabilities in order", rtol=1e-12, atol=1e-12, **info)
    reach = np.abs(pols).max() + 1e-12
    mon.close(data.mean_polarizability, pols.mean(axis=0), what + ": mean polarizability", rtol=0, atol=1e-12 * reach, **info)
    mon.close(data.stddev_polarizability, np.sqrt(np.mean((pols - pols.mean(axis=0)) ** 2, axis=0)), what + ": population standard deviation", rtol=1e-9, atol=1e-12 * reach, **info)
    targets = data.scaled_polarizabilities
    mon.check(targets.shape == (s, 6), what + ": shape of the targets", got=targets.shape)
    mon.check(bool(np.isfinite(targets).all()), what + ": targets are finite", **info)
    usable = vec(stddev) > 1e-9 * reach
    back = targets * vec(stddev) + vec(mean)
    wanted = vec(pols)
    constant = np.ptp(wanted, axis=0) < 1e-12 * reach
    # a component without spread is recovered from its own mean
    check = usable | (constant & (np.abs(wanted[0] - vec(mean)) < 1e-9 * reach))
    # precision of the stored (scaled) value, brought back to the polarizability
    bound = 4 * tol * (np.abs(wanted - vec(mean)) + np.abs(vec(mean)) * 1e-4) + 1e-11 * reach
    off = np.abs(back - wanted) - bound
    mon.check(bool((off[:, check] <= 0).all()), what + ": target*stddev+mean is the polarizability", worst=float(off[:, check].max(initial=-1)), got=back[:3], want=wanted[:3], mean=mean, stddev=stddev, **info)
    kind = torch.get_default_dtype()
    for i in {0, s - 1, int(rng.integers(s)), -1}:
        lat, num, pos, target = data[i]
        mon.close(lat.numpy(), lattice, what + ": lattice of an item", rtol=tol, atol=1e-12, i=i)
        mon.check([int(z) for z in num] == list(numbers), what + ": elements of an item", i=i, got=num)
        mon.close(pos.numpy(), positions[i], what + ": positions of an item", rtol=tol, atol=1e-9 * size, i=i)
        mon.close(target.numpy(), targets[i], what + ": target of an item", rtol=0, atol=0, i=i)
        mon.check(pos.dtype == kind and target.dtype == kind and lat.dtype == kind, what + ": items have the default precision", got=(lat.dtype, pos.dtype, target.dtype))
        mon.event("items")
    mon.raises(IndexError, "item beyond the end", lambda: data[s])


@case(quick=130, thorough=9000)
def scaling(mon, rng, index):
    """Own and supplied scalings, in any order."""
    import torch
    from ramannoodle.dataset.torch import PolarizabilityDataset

    kind, lattice, numbers, positions, pols = sample_set(rng, index)
    s = len(pols)
    default = torch.get_default_dtype()
    double = index % 5 == 0
    try:
        if double:
            torch.set_default_dtype(torch.float64)
            mon.event("double precision")
        data = PolarizabilityDataset(lattice.copy(), list(numbers), positions.copy(), pols.copy())
        info = dict(kind=kind, samples=s, atoms=len(numbers))
        mean, std = pols.mean(axis=0), pols.std(axis=0)
        inspect(mon, data, lattice, numbers, positions, pols, mean, std, rng, "fresh dataset", **info)
        targets = data.scaled_polarizabilities
        spread = vec(std) > 1e-6 * np.abs(pols).max()
        if s > 1:
            mon.close(targets.mean(axis=0)[spread], 0 * targets[0][spread], "own targets have mean zero", rtol=0, atol=1e-4)
            mon.close(targets.std(axis=0)[spread], np.ones(6)[spread], "own targets have unit variance", rtol=1e-4, atol=0)
        else:
            mon.event("single samples")
        if "constant" in kind:
            mon.event("constant components")
        mon.nontrivial("fresh", kind, pols, positions)
        for step in range(int(rng.integers(1, 4))):
            way = ["supplied", "supplied", "own", "other set", "identity", "zero"][int(rng.integers(6))]
            if way == "own":
                m2, s2 = data.mean_polarizability, data.stddev_polarizability
            elif way == "identity":
                m2, s2 = np.zeros((3, 3)), np.ones((3, 3))
            elif way == "other set":
                other = rng.normal(size=(20, 3, 3)) * 2 + 1
                train = PolarizabilityDataset(lattice, list(numbers), rng.random((20, len(numbers), 3)), other + other.transpose(0, 2, 1))
                m2, s2 = train.mean_polarizability, train.stddev_polarizability
                mon.event("shared scalings")
            else:
                m2, s2 = gen.sym_tensor(rng), np.abs(gen.sym_tensor(rng)) + 0.1
                if rng.random() < 0.2:
                    s2 = s2 * float(rng.choice([1e-2, 30.0]))
            if way == "zero":
                i, j = PAIRS[int(rng.integers(6))]
                s2[i, j] = s2[j, i] = 0
            if rng.random() < 0.3:
                m2, s2 = np.asfortranarray(m2), np.asfortranarray(s2)
            kept = m2.copy(), s2.copy()
            data.scale_polarizabilities(m2, s2)
            mon.check(np.array_equal(m2, kept[0]) and np.array_equal(s2, kept[1]), "the scaling was changed")
            inspect(mon, data, lattice, numbers, positions, pols, m2, s2, rng, f"dataset after {way} scaling", **info)
            mon.event("rescaled")
            mon.nontrivial("rescaled", way, pols, m2)
        before = data.scaled_polarizabilities
        for bad in ((m2[:2], s2), (m2, s2[:, :2]), (m2[None], s2), (m2, s2.ravel()), (1.0, s2), (m2.tolist(), s2)):
            mon.raises((ValueError, TypeError), "malformed scaling", data.scale_polarizabilities, *bad)
            mon.event("refused")
        mon.check(np.array_equal(data.scaled_polarizabilities, before), "a refused scaling changed the targets")
        # the loader sees aligned samples
        loader = torch.utils.data.DataLoader(data, batch_size=int(rng.integers(1, s + 2)), shuffle=True, generator=torch.Generator().manual_seed(int(rng.integers(2**31))))
        seen = []
        for lat, num, pos, target in loader:
            mon.check(lat.shape == (len(pos), 3, 3) and num.shape == pos.shape[:2] and target.shape == (len(pos), 6), "shapes of a batch", got=(lat.shape, num.shape, pos.shape, target.shape))
            for p, t in zip(pos.numpy(), target.numpy()):
                found = [k for k in range(s) if np.allclose(p, positions[k], rtol=tolerance(), atol=1e-9) and np.allclose(t, before[k], rtol=0, atol=0)]
                mon.check(bool(found), "positions and target of a batch belong to the same sample", kind=kind)
                seen += found[:1]
        mon.check(sorted(seen) == list(range(s)), "every sample once", got=sorted(seen))
        mon.event("loaders")
        mon.sample(**info, double=double)
    finally:
        torch.set_default_dtype(default)


@case(quick=40, thorough=2000)
def refused(mon, rng, index):
    """Arrays that do not belong together."""
    from ramannoodle.dataset.torch import PolarizabilityDataset

    _, lattice, numbers, positions, pols = sample_set(rng, index)
    good = [lattice, numbers, positions, pols]
    more = np.concatenate([pols, pols[:1]])
    for k, bad in (
        (0, lattice[:2]), (0, lattice[None]), (0, lattice.tolist()), (1, numbers + [1]), (1, numbers[:-1]), (1, np.array(numbers)), (1, None),
        (2, positions[0]), (2, positions[..., :2]), (2, np.concatenate([positions, positions[:1]])), (2, np.concatenate([positions, positions[:, :1]], axis=1)), (2, None),
        (3, more), (3, pols[1:]), (3, pols[0]), (3, vec(pols)), (3, pols[..., :2]), (3, pols.tolist()),
    ):
        args = list(good)
        args[k] = bad
        if isinstance(bad, np.ndarray) and k == 1 and bad.size == 0:
            continue
        mon.raises((ValueError, TypeError), "samples that do not fit together", PolarizabilityDataset, *args)
        mon.event("refused")
    mon.nontrivial("refused", positions)


@case(quick=60, thorough=4000)
def conversions(mon, rng, index):
    """Tensor/vector conversions."""
    import torch
    from ramannoodle.dataset.torch import utils

    s = int(rng.choice([0, 1, 2, 6, 9, 100]))
    kind = [torch.float32, torch.float64, torch.int64][index % 3]
    t = torch.tensor(rng.normal(size=(s, 3, 3)) * 100).to(kind)
    sym = torch.triu(t) + torch.triu(t, 1).transpose(1, 2)
    v = utils.polarizability_tensors_to_vectors(sym)
    mon.check(v.shape == (s, 6) and v.dtype == kind, "vectors of tensors", got=(v.shape, v.dtype))
    mon.check(np.array_equal(v.numpy(), vec(sym.numpy())), "order of components", got=v[:1], want=sym[:1])
    mon.check(np.array_equal(utils.polarizability_tensors_to_vectors(t).numpy(), vec(t.numpy())), "components of any tensor")
    back = utils.polarizability_vectors_to_tensors(v)
    mon.check(torch.equal(back, sym) and back.dtype == kind, "tensors from vectors of symmetric tensors", got=back[:1], want=sym[:1])
    w = torch.tensor(rng.normal(size=(s, 6))).to(kind)
    x = utils.polarizability_vectors_to_tensors(w)
    mon.check(torch.equal(x, x.transpose(1, 2)), "tensors are symmetric")
    mon.check(torch.equal(utils.polarizability_tensors_to_vectors(x), w), "vectors from tensors of vectors")
    for bad in (w[:, :5], w[None], torch.zeros(6), t):
        mon.raises(ValueError, "vectors of the wrong size", utils.polarizability_vectors_to_tensors, bad)
    for bad in (t[:, :2], t[None], torch.zeros(3, 3), w):
        mon.raises(ValueError, "tensors of the wrong size", utils.polarizability_tensors_to_vectors, bad)
    for f in (utils.polarizability_tensors_to_vectors, utils.polarizability_vectors_to_tensors):
        mon.raises(TypeError, "not a tensor", f, [[1.0] * 6])
    mon.event("conversions")
    mon.nontrivial("conversions", w.numpy())


def damaged(base, what, rng):
    """A calculation that does not belong into a dataset with ``base``."""
    lattice, types, counts, positions = base.lattice.copy(), list(base.types), list(base.counts), base.positions.copy()
    if what == "lattice":
        lattice[int(rng.integers(3)), int(rng.integers(3))] += float(rng.choice([0.02, -0.3]))
    elif what == "volume":
        lattice = lattice * 1.01
    elif what == "axes":
        lattice = lattice[[1, 0, 2]]
    elif what == "element":
        k = int(rng.integers(len(types)))
        types[k] = [t for t in ("Ti", "O", "Mg", "Xe") if t not in types][0]
    elif what == "counts":
        counts[int(rng.integers(len(counts)))] += 1
        positions = np.concatenate([positions, rng.random((1, 3))])
    elif what == "order":
        if len(types) < 2:
            return None
        types = types[::-1]
        counts = counts[::-1]
        new = [t for t, c in zip(types, counts) for _ in range(c)]
        if new == [t for t, c in zip(base.types, base.counts) for _ in range(c)]:
            return None
    if np.allclose(lattice, base.lattice) and what in ("lattice", "volume", "axes"):
        return None
    c = genfiles.Calc(types, counts, lattice, positions)
    return genfiles.add_polarizability(c, rng)


WRONG = ["lattice", "volume", "axes", "element", "counts", "order"]


@case(quick=30, thorough=1500)
def assembled(mon, rng, index):
    """Datasets from several files or structures."""
    import pymatgen.core
    from ramannoodle.exceptions import IncompatibleStructureException
    from ramannoodle.io import generic
    from ramannoodle.io import pymatgen as rp
    from ramannoodle.io.vasp import outcar, vasprun

    folder = tempfile.mkdtemp(prefix="rnmon_p23_")
    try:
        base = genfiles.calc(rng, max_count=3, repeat_types=index % 4 == 3)
        count = int(rng.integers(2, 6))
        fmt = ["outcar", "vasprun.xml"][index % 2]
        render = (lambda c: genfiles.outcar(c, rng, "ABC"[index % 3])) if fmt == "outcar" else (lambda c: genfiles.vasprun(c, rng))
        specific = outcar if fmt == "outcar" else vasprun
        calcs, paths = [], []
        for k in range(count):
            c = genfiles.Calc(base.types, base.counts, base.lattice, rng.random((base.n, 3)) if index % 3 else (base.positions + rng.normal(size=(base.n, 3)) * 0.02) % 1)
            genfiles.add_polarizability(c, rng)
            paths.append(genfiles.save(os.path.join(folder, f"{fmt}{rng.integers(10**6)}_{k}"), render(c)))
            calcs.append(c)
        order = [int(k) for k in rng.integers(0, count, count + 1)]  # any order, repeated
        names = [Path(paths[k]) if rng.random() < 0.5 else paths[k] for k in order]
        read = (lambda files: generic.read_polarizability_dataset(files, fmt)) if rng.random() < 0.5 else specific.read_polarizability_dataset
        data = read(names)
        singles = [specific.read_structure_and_polarizability(p) for p in paths]
        positions = np.array([singles[k][2] for k in order])
        pols = np.array([singles[k][3] for k in order])
        inspect(mon, data, singles[0][0], base.numbers, positions, pols, pols.mean(axis=0), pols.std(axis=0), rng, "dataset of files", fmt=fmt)
        truth = np.array([calcs[k].positions for k in order])
        mon.close(gen.pdist(data.positions, truth), 0, "positions written to the files", rtol=0, atol=3e-7)
        mon.close(pols, np.array([calcs[k].polarizability for k in order]), "tensors written to the files", rtol=1e-6, atol=1e-5)
        mon.event("files")
        mon.nontrivial("files", fmt, positions, pols)
        for what in WRONG:
            wrong = damaged(base, what, rng)
            if wrong is None:
                continue
            path = genfiles.save(os.path.join(folder, "wrong"), render(wrong))
            for place in (int(rng.integers(1, len(names))), len(names), 0):
                files = names[:place] + [path] + names[place:]
                mon.raises(IncompatibleStructureException, f"files with another {what}", read, files)
                mon.event("incompatible files")
        mon.raises(FileNotFoundError, "a missing file", read, names + [os.path.join(folder, "missing")])
        mon.raises((ValueError, IndexError), "no files", read, [])
        # structures
        structures = [pymatgen.core.Structure(c.lattice, c.symbols, c.positions) for c in calcs]
        given = np.array([c.polarizability for c in calcs])
        chosen = [structures[k] for k in order]
        data = rp.construct_polarizability_dataset(chosen, given[order])
        inspect(mon, data, base.lattice, base.numbers, truth, given[order], given[order].mean(axis=0), given[order].std(axis=0), rng, "dataset of structures")
        mon.event("structures")
        for what in WRONG:
            wrong = damaged(base, what, rng)
            if wrong is None:
                continue
            bad = pymatgen.core.Structure(wrong.lattice, wrong.symbols, wrong.positions)
            for place in (int(rng.integers(1, len(chosen))), len(chosen), 0):
                mon.raises(IncompatibleStructureException, f"structures with another {what}", rp.construct_polarizability_dataset, chosen[:place] + [bad] + chosen[place:], np.concatenate([given[order], given[:1]]))
                mon.event("incompatible structures")
        for bad in (given[order][:-1], given[order][..., :2], given[0]):
            mon.raises((ValueError, TypeError), "polarizabilities that do not fit", rp.construct_polarizability_dataset, chosen, bad)
    finally:
        shutil.rmtree(folder)


@case(quick=6, thorough=100)
def usable(mon, rng, index):
    """A rescaled dataset can be trained on and recovers the polarizabilities."""
    import torch
    from ramannoodle.dataset.torch import PolarizabilityDataset
    from ramannoodle.pmodel.torch import PotGNN, train_single_epoch

    torch.manual_seed(index)
    crystal = gen.BASE[["rutile", "p1_three", "wurtzite"][index % 3]]
    numbers = [int(z) for z in crystal.numbers]

    def make(k, constant=False):
        pols = rng.normal(size=(k, 3, 3)) * 0.1 + np.eye(3) * 3
        pols = pols + pols.transpose(0, 2, 1)
        if constant:
            pols[:, 0, 1] = pols[:, 1, 0] = 0.0
        return PolarizabilityDataset(crystal.lattice, numbers, crystal.positions + rng.normal(size=(k, crystal.n, 3)) * 0.01, pols)

    train, valid = make(6, index % 2 == 0), make(4)
    mean, std = train.mean_polarizability, train.stddev_polarizability
    valid.scale_polarizabilities(mean, std)
    if index % 2:
        train.scale_polarizabilities(mean, std)
    model = PotGNN(crystal.ref(), 4.5, 4, 4, 1, 0.0, 6.0, mean, std)
    loss, vloss, var = train_single_epoch(model, train, valid, 3, torch.optim.SGD(model.parameters(), lr=1e-3), torch.nn.MSELoss())
    mon.check(bool(np.isfinite([loss, vloss]).all() and np.isfinite(var).all()), "losses of rescaled sets are finite", losses=(loss, vloss), variance=var)
    mon.event("trained")
    mon.nontrivial("trained", index)
