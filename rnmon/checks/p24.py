"""P24: neural-network predictions depend on the physics only."""

import copy
import io

import numpy as np

from rnmon import gen, models
from rnmon.core import Inconclusive, case

RULE = "distinct (network, batch of configurations) whose predictions were compared between two equivalent presentations"
ASSUMPTIONS = [
    "double-precision networks are compared to 1e-7, single-precision ones to 1e-2 of the spread of their predictions",
    "connected atoms are not exactly half a cell apart (the minimum image used by the network is ambiguous there)",
    "whole-cell moves of up to three cells (positions are stored in torch's default precision)",
]
REQUIRED_EVENTS = [
    "fresh", "trained", "scrambled", "single", "double", "repeat", "history", "order", "split", "long batches", "translation", "lattice vectors",
    "relabelling", "state dict", "pickle", "scaling", "symmetric", "forward", "other lattices", "training flag", "refused", "moved reference",
    "rounding", "statistics", "unconnected", "out of reach",
]


def distances(crystal):
    """Sorted distinct pair distances by component-wise minimum image."""
    d = crystal.positions[:, None] - crystal.positions[None]
    d = d - np.rint(d)
    r = np.linalg.norm(d @ crystal.lattice, axis=-1)
    values = np.sort(r[~np.eye(crystal.n, dtype=bool)])
    keep = [values[0]]
    for v in values:
        if v - keep[-1] > 1e-3:
            keep.append(v)
    return keep


def cutoff_for(crystal, rng):
    """A cutoff in a gap between neighbour shells (so that rounding does not matter)."""
    if crystal.n < 2:
        raise Inconclusive("no neighbours")
    shells = distances(crystal)
    gaps = [(a + b) / 2 for a, b in zip(shells, shells[1:] + [shells[-1] + 1.0]) if b - a > 0.05]
    if not gaps:
        raise Inconclusive("no gap between shells")
    cutoff = float(gaps[int(rng.integers(min(len(gaps), 4)))])
    # pairs exactly half a cell apart are measured along one of their images only
    d = crystal.positions[:, None] - crystal.positions[None]
    sure = ~(np.abs(np.abs(d - np.rint(d)) - 0.5) < 1e-5).any(axis=-1) & ~np.eye(crystal.n, dtype=bool)
    r = np.linalg.norm((d - np.rint(d)) @ crystal.lattice, axis=-1)
    if not (r[sure] <= cutoff).any():
        raise Inconclusive("no certain neighbours")
    return cutoff


def ambiguous(positions, tol=2e-5):
    d = positions[..., :, None, :] - positions[..., None, :, :]
    d = np.abs(d - np.rint(d))
    return bool((np.abs(d - 0.5) < tol).any())


def network(crystal, cutoff, sizes, mean, std):
    from ramannoodle.pmodel.torch import PotGNN

    return PotGNN(crystal.ref(), cutoff, *sizes, mean, std)


def scramble(model, rng):
    """Parameters and running statistics of arbitrary values."""
    import torch

    with torch.no_grad():
        for name, value in list(model.named_parameters()) + list(model.named_buffers()):
            if "offset" in name or not value.dtype.is_floating_point:
                continue
            noise = torch.tensor(rng.normal(size=tuple(value.shape)), dtype=value.dtype)
            if "running_var" in name:
                value.copy_(0.5 + noise.abs())
            else:
                value.add_(0.4 * noise)


class Setup:
    def __init__(self, mon, rng, index, max_atoms=8):
        import torch

        self.crystal = gen.describe(rng, gen.NAMES[index % len(gen.NAMES)], max_atoms=max_atoms) if index % 2 else gen.p1_crystal(rng)
        self.cutoff = cutoff_for(self.crystal, rng)
        self.sizes = (int(rng.integers(1, 9)), int(rng.integers(2, 9)), int(rng.integers(1, 4)), 0.0, float(rng.uniform(3, 8)))
        self.mean = gen.sym_tensor(rng) * 3
        self.std = np.abs(gen.sym_tensor(rng)) + 0.2
        torch.manual_seed(int(rng.integers(2**31)))
        self.model = network(self.crystal, self.cutoff, self.sizes, self.mean.copy(), self.std.copy())
        self.state = ["fresh", "scrambled", "trained"][int(rng.integers(3))]
        if self.state == "trained":
            self.train(rng)
        if self.state == "scrambled":
            scramble(self.model, rng)
        mon.event(self.state)
        self.double = torch.get_default_dtype() == torch.float64
        mon.event("double" if self.double else "single")

    def train(self, rng):
        import torch
        from ramannoodle.dataset.torch import PolarizabilityDataset
        from ramannoodle.pmodel.torch import train_single_epoch

        pols = rng.normal(size=(6, 3, 3)) + 3 * np.eye(3)
        sets = [
            PolarizabilityDataset(self.crystal.lattice, [int(z) for z in self.crystal.numbers], self.configurations(rng, 6), pols + pols.transpose(0, 2, 1))
            for _ in range(2)
        ]
        optimizer = torch.optim.Adam(self.model.parameters(), lr=0.02)
        for _ in range(2):
            train_single_epoch(self.model, *sets, 3, optimizer, torch.nn.MSELoss())

    def configurations(self, rng, count):
        for _ in range(20):
            x = self.crystal.positions + rng.normal(size=(count, self.crystal.n, 3)) * float(rng.choice([0.01, 0.03])) / np.linalg.norm(self.crystal.lattice, axis=1)
            if not ambiguous(x):
                return x
        raise Inconclusive("connected atoms half a cell apart")

    def equal(self, mon, got, want, what, exact=False, **info):
        spread = max(np.abs(want - (self.mean if want.ndim == 3 else 0)).max(), 0.1)
        tol = 1e-9 if exact else (1e-7 if self.double else 1e-2)
        mon.close(got, want, what, rtol=0, atol=tol * spread, crystal=self.crystal, sizes=self.sizes, cutoff=self.cutoff, state=self.state, double=self.double, **info)


def precision_case(fn):
    """Alternates torch's default precision; restores it; one thread."""

    def run(mon, rng, index):
        import torch

        default = torch.get_default_dtype()
        torch.set_num_threads(1)
        try:
            if index % 3:
                torch.set_default_dtype(torch.float64)
            fn(mon, rng, index)
        finally:
            torch.set_default_dtype(default)

    run.__name__ = fn.__name__
    run.__doc__ = fn.__doc__
    return run


@case(quick=60, thorough=4000)
@precision_case
def batches(mon, rng, index):
    """Composition, size and order of batches, repeated calls, earlier calls."""
    import torch

    s = Setup(mon, rng, index)
    model = s.model
    count = int(rng.choice([2, 3, 7, 20])) if index % 8 else int(rng.choice([101, 130, 205]))
    x = s.configurations(rng, count)
    want = model.calc_polarizabilities(x)
    mon.check(want.shape == (count, 3, 3) and bool(np.isfinite(want).all()), "one finite tensor per configuration", got=want.shape)
    s.equal(mon, want, want.transpose(0, 2, 1), "prediction is symmetric", exact=True)
    mon.event("symmetric")
    s.equal(mon, model.calc_polarizabilities(x), want, "repeated prediction", exact=True)
    mon.event("repeat")
    mon.nontrivial("batch", s.state, x, want)
    order = rng.permutation(count)
    s.equal(mon, model.calc_polarizabilities(x[order]), want[order], "order of the batch", count=count)
    mon.event("order")
    # one by one, in pieces, with repetitions
    for k in {0, count - 1, int(rng.integers(count))}:
        s.equal(mon, model.calc_polarizabilities(x[k : k + 1]), want[k : k + 1], "configuration on its own", k=k, count=count)
    cut = int(rng.integers(1, count))
    pieces = np.concatenate([model.calc_polarizabilities(x[:cut]), model.calc_polarizabilities(x[cut:])])
    s.equal(mon, pieces, want, "batch in pieces", cut=cut, count=count)
    chosen = rng.integers(0, count, int(rng.integers(1, 2 * count)))
    s.equal(mon, model.calc_polarizabilities(x[chosen]), want[chosen], "batch with repetitions", chosen=chosen)
    buffer = x[:1].copy()
    for k in (0, count - 1):
        buffer[...] = x[k]
        s.equal(mon, model.calc_polarizabilities(buffer), want[k : k + 1], "configuration in an array used before", k=k, count=count)
    mon.event("split")
    if count > 100:
        mon.event("long batches")
    # other members
    mixed = np.concatenate([s.configurations(rng, 3), x[:2], s.configurations(rng, 2)])
    s.equal(mon, model.calc_polarizabilities(mixed)[3:5], want[:2], "other members of the batch")
    # a wild companion
    wild = np.concatenate([x[:1], rng.random((1, s.crystal.n, 3)), x[1:2]])
    s.equal(mon, model.calc_polarizabilities(wild)[[0, 2]], want[:2], "a wild companion in the batch")
    # a companion in which two atoms all but meet, and one that is spread out
    if s.crystal.n > 1:
        collapsed = x[:1].copy()
        i, j = rng.permutation(s.crystal.n)[:2]
        collapsed[0, i] = x[0, j] + rng.normal(size=3) * float(rng.choice([1e-3, 3e-2])) / np.linalg.norm(s.crystal.lattice, axis=1)
        near = np.concatenate([collapsed, x[:2], collapsed])
        s.equal(mon, model.calc_polarizabilities(near)[1:3], want[:2], "a companion with nearly coinciding atoms")
        if not ambiguous(near):
            alone = model.calc_polarizabilities(collapsed)
            if np.isfinite(alone).all():
                for company in (near, np.concatenate([rng.random((1, s.crystal.n, 3)), collapsed])):
                    s.equal(mon, model.calc_polarizabilities(company)[-1:], alone, "a configuration with nearly coinciding atoms in company")
                mon.event("collapsed configurations")
    # no configurations at all, then history
    for _ in range(3):
        model.calc_polarizabilities(s.configurations(rng, int(rng.integers(1, 9))))
        if rng.random() < 0.5:
            model.train()
            mon.event("training flag")
        if rng.random() < 0.5:
            mon.raises((ValueError, TypeError), "configurations of the wrong shape", model.calc_polarizabilities, x[:, :, :2])
            mon.raises((ValueError, TypeError), "configurations with other atoms", model.calc_polarizabilities, np.concatenate([x, x[:, :1]], axis=1))
            mon.event("refused")
    s.equal(mon, model.calc_polarizabilities(x), want, "earlier calls", exact=True)
    mon.event("history")
    # memory layout
    s.equal(mon, model.calc_polarizabilities(np.asfortranarray(x)), want, "memory layout", exact=True)
    # forward pass
    model.eval()
    kind = torch.get_default_dtype()

    def forward(positions, lattices):
        numbers = torch.tensor([[int(z) for z in s.crystal.numbers]] * len(positions))
        with torch.no_grad():
            return model.forward(torch.tensor(lattices, dtype=kind), numbers, torch.tensor(positions, dtype=kind)).numpy()

    some = x[: min(4, count)]
    lattices = np.repeat(s.crystal.lattice[None], len(some), axis=0)
    out = forward(some, lattices)
    ten = np.stack([out[:, [0, 3, 4]], out[:, [3, 1, 5]], out[:, [4, 5, 2]]], axis=1)
    s.equal(mon, ten * s.std + s.mean, want[: len(some)], "prediction is the network's output times stddev plus mean")
    mon.event("forward")
    strained = lattices * rng.uniform(0.98, 1.02, (len(some), 1, 3))
    both = forward(some, strained)
    alone = np.concatenate([forward(some[k : k + 1], strained[k : k + 1]) for k in range(len(some))])
    s.equal(mon, both + 0 * out, alone, "samples with different lattices")
    mon.event("other lattices")
    mon.sample(crystal=s.crystal, cutoff=s.cutoff, sizes=s.sizes, state=s.state, count=count, first=want[0])


@case(quick=60, thorough=4000)
@precision_case
def presentations(mon, rng, index):
    """Translations, whole-cell moves, relabelling, other cells of the reference."""
    s = Setup(mon, rng, index)
    model = s.model
    x = s.configurations(rng, int(rng.integers(1, 6)))
    want = model.calc_polarizabilities(x)
    shift = rng.uniform(-1, 1, 3) if rng.random() < 0.7 else rng.uniform(-1, 1, (len(x), 1, 3))
    s.equal(mon, model.calc_polarizabilities(x + shift), want, "common translation of all atoms", shift=shift)
    mon.event("translation")
    reach = 3 if s.double else 1
    moves = rng.integers(-reach, reach + 1, x.shape)
    s.equal(mon, model.calc_polarizabilities(x + moves), want, "moves by lattice vectors", moves=moves[0])
    s.equal(mon, model.calc_polarizabilities((x + shift) % 1), want, "translated and wrapped")
    mon.event("lattice vectors")
    mon.nontrivial("presentation", s.state, x)
    # relabelling
    order = rng.permutation(s.crystal.n)
    twin = network(s.crystal.permuted(order), s.cutoff, s.sizes, s.mean, s.std)
    twin.load_state_dict(model.state_dict())
    s.equal(mon, twin.calc_polarizabilities(x[:, order]), want, "relabelled atoms", order=order)
    mon.event("relabelling")
    # distances to the reference do not depend on the cells its atoms are given in
    if not ambiguous(s.crystal.positions):
        moved = gen.Crystal(s.crystal.name, s.crystal.numbers, s.crystal.lattice, s.crystal.positions + rng.integers(-1, 2, s.crystal.positions.shape) + rng.random(3))
        if not ambiguous(moved.positions):
            twin = network(moved, s.cutoff, s.sizes, s.mean, s.std)
            twin.load_state_dict(model.state_dict())
            s.equal(mon, twin.calc_polarizabilities(x), want, "reference given in other cells and with another origin")
            mon.event("moved reference")


@case(quick=40, thorough=3000)
@precision_case
def stored(mon, rng, index):
    """Saving and restoring, and the stored mean and standard deviation."""
    import torch

    s = Setup(mon, rng, index)
    model = s.model
    x = s.configurations(rng, int(rng.integers(1, 6)))
    want = model.calc_polarizabilities(x)
    # parameters
    buffer = io.BytesIO()
    torch.save(model.state_dict(), buffer)
    buffer.seek(0)
    torch.manual_seed(int(rng.integers(2**31)))
    twin = network(s.crystal, s.cutoff, s.sizes, s.mean, s.std)
    if rng.random() < 0.5:
        twin.calc_polarizabilities(x[:1])
        scramble(twin, rng)
    outcome = twin.load_state_dict(torch.load(buffer))
    mon.check(not outcome.missing_keys and not outcome.unexpected_keys, "stored parameters are complete")
    s.equal(mon, twin.calc_polarizabilities(x), want, "restored parameters", exact=True)
    mon.event("state dict")
    # whole models
    buffer = io.BytesIO()
    torch.save(model, buffer)
    buffer.seek(0)
    for other in (torch.load(buffer, weights_only=False), copy.deepcopy(model)):
        s.equal(mon, other.calc_polarizabilities(x), want, "restored model", exact=True)
    mon.event("pickle")
    s.equal(mon, model.calc_polarizabilities(x), want, "saving changed the model", exact=True)
    # running statistics are part of the state: change them and nothing else
    kept = {k: v.clone() for k, v in model.state_dict().items()}
    kind = torch.get_default_dtype()
    other = s.configurations(rng, 4)
    model.train()
    with torch.no_grad():
        model.forward(torch.tensor(np.repeat(s.crystal.lattice[None], 4, axis=0), dtype=kind), torch.tensor([[int(z) for z in s.crystal.numbers]] * 4), torch.tensor(other, dtype=kind))
    fresh = network(s.crystal, s.cutoff, s.sizes, s.mean, s.std)
    fresh.load_state_dict({k: v.clone() for k, v in model.state_dict().items()})
    s.equal(mon, model.calc_polarizabilities(x), fresh.calc_polarizabilities(x), "prediction after the running statistics changed", exact=True)
    for name, value in model.named_buffers():
        if "running_var" in name:
            value.mul_(2.5)
    fresh = network(s.crystal, s.cutoff, s.sizes, s.mean, s.std)
    fresh.load_state_dict({k: v.clone() for k, v in model.state_dict().items()})
    s.equal(mon, model.calc_polarizabilities(x), fresh.calc_polarizabilities(x), "prediction after the running statistics were set", exact=True)
    model.load_state_dict(kept)
    s.equal(mon, model.calc_polarizabilities(x), want, "restored statistics", exact=True)
    mon.event("statistics")
    # the stored scaling
    plain = network(s.crystal, s.cutoff, s.sizes, np.zeros((3, 3)), np.ones((3, 3)))
    plain.load_state_dict(model.state_dict())
    raw = plain.calc_polarizabilities(x)
    s.equal(mon, raw * s.std + s.mean, want, "rescaled by the stored mean and standard deviation")
    for std, mean in ((s.std * 0, s.mean), (s.std * 1e-3, s.mean * 0), (s.std, s.mean * 50)):
        third = network(s.crystal, s.cutoff, s.sizes, mean, std)
        third.load_state_dict(model.state_dict())
        mon.close(third.calc_polarizabilities(x), raw * std + mean, "other scalings of the same network", rtol=1e-6, atol=1e-6 * (np.abs(raw).max() * np.abs(std).max() + 1e-12))
    # a small spread around a large mean: the mean must not lose digits
    mean = gen.sym_tensor(rng) * 3 + float(rng.choice([1000.1, -333.3, 54321.123]))
    std = s.std * 1e-4
    third = network(s.crystal, s.cutoff, s.sizes, mean, std)
    third.load_state_dict(model.state_dict())
    atol = 1e-6 * np.abs(raw).max() * np.abs(std).max() + 1e-13 * np.abs(mean).max()
    mon.close(third.calc_polarizabilities(x), raw * std + mean, "a small spread around a large mean", rtol=0, atol=atol)
    mon.event("scaling")
    mon.nontrivial("stored", s.state, x, want)
    # a fresh start changes the parameters, not the rest
    twin.reset_parameters()
    mon.check(bool(np.isfinite(twin.calc_polarizabilities(x)).all()), "reset network still predicts")
    spread = np.abs(raw).max()
    mon.check(spread > 0, "the network predicts something")


@case(quick=40, thorough=600)
@precision_case
def rounding(mon, rng, index):
    """Rounding errors in the lattice must not matter, whatever direction bonds have."""
    count = int(rng.integers(2, 6))
    axis = int(rng.choice([0, 0, 1, 2]))
    lattice = np.diag(rng.uniform(4, 7, 3))
    positions = rng.random((count, 3)) * 0.5
    positions[1] = positions[0]
    positions[1, axis] += float(rng.uniform(0.25, 0.45)) * (1 if rng.random() < 0.5 else -1)
    if ambiguous(positions, 1e-3):
        raise Inconclusive("connected atoms half a cell apart")
    numbers = [22, 8, 8, 14, 14][:count]
    crystal = gen.Crystal("bond along an axis", numbers, lattice, positions)
    cutoff = max(distances(crystal)) + 0.5
    mean, std = np.zeros((3, 3)), np.ones((3, 3))
    model = network(crystal, cutoff, (4, 4, 2, 0.0, 5.0), mean, std)
    want = model.calc_polarizabilities(positions[None])
    mon.check(bool(np.isfinite(want).all()), "finite prediction for a bond along an axis")
    for _ in range(4):
        noise = 10.0 ** rng.uniform(-24, -18 if rng.random() < 0.7 else -14, (3, 3)) * rng.choice([-1, 0, 1], (3, 3))
        rough = gen.Crystal("bond along an axis", numbers, lattice + noise * (lattice == 0), positions)
        twin = network(rough, cutoff, (4, 4, 2, 0.0, 5.0), mean, std)
        twin.load_state_dict(model.state_dict())
        got = twin.calc_polarizabilities(positions[None])
        tol = 1e-7 if index % 3 else 1e-3
        mon.close(got, want, "rounding error in the lattice", rtol=0, atol=tol * max(np.abs(want).max(), 0.1), noise=noise, axis=axis)
    mon.event("rounding")
    mon.nontrivial("rounding", positions, noise)


@case(quick=24, thorough=800)
@precision_case
def out_of_reach(mon, rng, index):
    """Atoms with no neighbour within the cutoff have no influence; those with one do."""
    import torch

    edge = float(rng.uniform(14, 18))
    lattice = np.eye(3) * edge @ (gen.rotation(rng) if index % 2 else np.eye(3))
    cutoff = float(rng.uniform(1.2, 4.0))
    margin = float(rng.choice([0.03, 0.1, 0.3]))
    # a trimer whose neighbours are connected, and an atom just beyond the cutoff of all others
    near = (cutoff - margin) * rng.uniform(0.7, 1.0)
    d1, d2 = gen.rotation(rng)[:2]
    cart = np.array([np.zeros(3), near * d1, near * d2 * 0.9, -(cutoff + margin) * (d1 + d2) / np.sqrt(2)])
    order = rng.permutation(4)
    numbers = np.array([22, 8, 8, int(rng.choice([8, 14]))])[order]
    crystal = gen.Crystal("out of reach", [int(z) for z in numbers], lattice, (cart @ np.linalg.inv(lattice))[order] + rng.random(3) * float(index % 3 > 0))
    mean, std = gen.sym_tensor(rng), np.ones((3, 3))
    torch.manual_seed(int(rng.integers(2**31)))
    model = network(crystal, cutoff, (4, 5, int(rng.integers(1, 4)), 0.0, 6.0), mean, std)
    if index % 4:
        scramble(model, rng)
    alone = int(np.argmax(order == 3))
    x = np.repeat(crystal.positions[None], 3, axis=0)
    x[1, alone] += rng.normal(size=3) * 0.05 / edge
    x[2, (alone + 1) % 4] += rng.normal(size=3) * 0.1 / edge
    got = model.calc_polarizabilities(x)
    spread = max(np.abs(got - mean).max(), 1e-3)
    tol = 1e-9 if torch.get_default_dtype() == torch.float64 else 1e-4
    mon.close(got[1], got[0], "an atom beyond the cutoff of all others influences the prediction", rtol=0, atol=tol * spread, crystal=crystal, cutoff=cutoff, margin=margin)
    if torch.get_default_dtype() == torch.float64:
        mon.check(np.abs(got[2] - got[0]).max() > 1e-10 * spread, "an atom within the cutoff of another has no influence", crystal=crystal, cutoff=cutoff)
    mon.event("out of reach")
    mon.nontrivial("out of reach", crystal.positions, cutoff, margin)


@case(quick=24, thorough=600)
@precision_case
def unconnected(mon, rng, index):
    """Networks whose cutoff connects no atoms, or whose cell holds one atom."""
    import torch

    crystal = gen.p1_crystal(rng, n=int(rng.integers(2, 5))) if index % 4 else gen.Crystal("single", [int(rng.integers(1, 90))], gen.lattice(rng), rng.random((1, 3)))
    cutoff = 0.5 * min(distances(crystal)) if crystal.n > 1 else float(rng.choice([0.1, 1.0, 20.0]))
    mean, std = gen.sym_tensor(rng) * 3, np.abs(gen.sym_tensor(rng)) + 0.2
    torch.manual_seed(int(rng.integers(2**31)))
    model = network(crystal, cutoff, (3, 4, 2, 0.0, 5.0), mean, std)
    if index % 2:
        scramble(model, rng)
    x = crystal.positions + rng.normal(size=(int(rng.integers(1, 5)), crystal.n, 3)) * 0.01
    got = model.calc_polarizabilities(x)
    mon.check(got.shape == (len(x), 3, 3) and bool(np.isfinite(got).all()), "one finite tensor per configuration without connected atoms", got=got, crystal=crystal)
    # nothing the network knows of distinguishes the configurations
    for k in range(len(x)):
        mon.close(got[k], got[0], "configurations without connected atoms differ", rtol=0, atol=1e-6 * np.abs(mean).max())
    mon.close(model.calc_polarizabilities(x[::-1] + rng.integers(-1, 2, x.shape)), got[::-1], "moves by lattice vectors", rtol=0, atol=1e-6 * np.abs(mean).max())
    mon.event("unconnected")
    mon.nontrivial("unconnected", crystal.lattice, x)


@case(quick=20, thorough=400)
@precision_case
def responsive(mon, rng, index):
    """Predictions do respond to what they may depend on (distances, elements, tensors)."""
    s = Setup(mon, rng, index)
    scramble(s.model, rng)
    x = s.configurations(rng, 1)
    a = s.model.calc_polarizabilities(x)
    far = x.copy()
    far[0, 0] += np.array([0.35, 0.2, -0.15]) / np.linalg.norm(s.crystal.lattice, axis=1)
    b = s.model.calc_polarizabilities(far)
    if s.crystal.n > 1:
        connected = np.linalg.norm(gen.minimg(s.crystal.positions[1:] - s.crystal.positions[0]) @ s.crystal.lattice, axis=1).min() <= s.cutoff
        if connected:
            mon.check(np.abs(a - b).max() > 1e-7, "prediction ignores the positions", crystal=s.crystal, cutoff=s.cutoff)
    mon.nontrivial("responsive", x)


@case(quick=30, thorough=300)
@precision_case
def parameters(mon, rng, index):
    """Malformed constructor arguments."""
    from ramannoodle.pmodel.torch import PotGNN

    crystal = gen.BASE[["rutile", "p1_three", "hcp"][index % 3]]
    good = [crystal.ref(), 4.0, 4, 4, 1, 0.0, 5.0, np.zeros((3, 3)), np.ones((3, 3))]
    for k, bad in ((1, 0), (1, -1.0), (2, 0), (3, 0), (3, -2), (4, 0), (4, -1), (5, -0.1), (6, 0.0), (6, -2.0), (7, np.zeros(3)), (8, np.ones((3, 2))), (7, np.zeros((1, 3, 3)))):
        args = list(good)
        args[k] = bad
        mon.raises(ValueError, "malformed parameter", PotGNN, *args)
    mon.nontrivial("parameters", index)
    models.refusals()
