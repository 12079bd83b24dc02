"""P25: one training epoch uses each sample once and reports honest losses."""

import copy

import numpy as np

from rnmon import gen
from rnmon.core import case

RULE = "distinct (sets, batch size, optimizer, loss) training epochs whose event log was replayed independently"
ASSUMPTIONS = [
    "the epoch is replayed from its logged batches with torch's own optimizers and losses; parameters agree to 1e-9 (double) or 1e-3 of the step (single precision)",
    "prediction variance is torch's default (unbiased) variance over the validation set, which holds at least two samples",
    "closure-based optimizers are outside the interface",
]
REQUIRED_EVENTS = [
    "epochs", "dividing", "remainder", "one batch", "single-sample batches", "several epochs", "stale gradients", "long validation", "other validation",
    "frozen parameters", "no momentum", "momentum", "double", "single", "evaluation first", "eager loss", "summed loss",
    "losses of unusual size",
]


def instrumented():
    import torch
    from ramannoodle.pmodel.torch import PotGNN

    class Logged(PotGNN):
        """Network that records each forward pass."""

        log = None

        def forward(self, lattice, atomic_numbers, positions):
            if self.log is not None:
                flags = {m.training for m in self.modules()}
                state = {k: v.detach().clone() for k, v in self.state_dict().items()}
                self.log.append(("forward", positions.detach().clone(), lattice.detach().clone(), atomic_numbers.detach().clone(), flags, state))
            return super().forward(lattice, atomic_numbers, positions)

    def logged_step(optimizer, log, model):
        inner = optimizer.step

        def step(*args, **kwargs):
            log.append(("step", {k: None if v.grad is None else v.grad.detach().clone() for k, v in model.named_parameters()}))
            return inner(*args, **kwargs)

        optimizer.step = step
        return optimizer

    class Loss(torch.nn.Module):
        """Loss that records what it is given."""

        def __init__(self, inner, log):
            super().__init__()
            self.inner = inner
            self.log = log

        def forward(self, out, target):
            value = self.inner(out, target)
            self.log.append(("loss", out.detach().clone(), target.detach().clone(), float(value)))
            return value

    return Logged, logged_step, Loss


LOSSES = ["MSE", "L1", "Huber", "summed", "shaped", "tiny", "huge", "negative", "zero"]
FACTORS = {"tiny": 1e-9, "huge": 1e6, "negative": -1.0, "zero": 0.0}


def make_loss(kind):
    import torch

    if kind == "MSE":
        return torch.nn.MSELoss()
    if kind == "L1":
        return torch.nn.L1Loss()
    if kind == "Huber":
        return torch.nn.HuberLoss(delta=0.3)
    if kind == "summed":
        return torch.nn.MSELoss(reduction="sum")

    class Shaped(torch.nn.Module):
        def forward(self, out, target):
            if kind in FACTORS:
                return FACTORS[kind] * ((out - target) ** 2).mean()
            return ((out - target) ** 4).mean() ** 0.25 + 0.01 * (out**2).mean()

    return Shaped()


OPTIMIZERS = ["SGD", "momentum", "Adam", "AdamW", "RMSprop"]


def make_optimizer(kind, parameters, lr):
    import torch

    if kind == "SGD":
        return torch.optim.SGD(parameters, lr=lr)
    if kind == "momentum":
        return torch.optim.SGD(parameters, lr=lr, momentum=0.9, weight_decay=1e-2)
    if kind == "Adam":
        return torch.optim.Adam(parameters, lr=lr)
    if kind == "AdamW":
        return torch.optim.AdamW(parameters, lr=lr, weight_decay=0.1)
    return torch.optim.RMSprop(parameters, lr=lr)


def plan(rng, index):
    """Sizes of sets and batches."""
    way = ["dividing", "remainder", "one batch", "single-sample batches", "oversized"][index % 5]
    train = int(rng.integers(2, 11))
    if way == "dividing":
        batch = int(rng.integers(1, 4))
        train = batch * int(rng.integers(2, 5))
    elif way == "remainder":
        batch = int(rng.integers(2, 6))
        train = batch * int(rng.integers(1, 4)) + int(rng.integers(1, batch))
    elif way == "one batch":
        batch = train
    elif way == "single-sample batches":
        batch = 1
    else:
        batch = train + int(rng.integers(1, 40))
    valid = int(rng.integers(2, 9))
    if index % 7 == 3:
        valid = int(rng.choice([100, 101, 102, 150, 230]))
    return way, train, valid, batch


@case(quick=70, thorough=4000)
def epochs(mon, rng, index):
    import torch

    default = torch.get_default_dtype()
    torch.set_num_threads(1)
    try:
        double = index % 4 != 3
        if double:
            torch.set_default_dtype(torch.float64)
        mon.event("double" if double else "single")
        run(mon, rng, index, double)
    finally:
        torch.set_default_dtype(default)


def run(mon, rng, index, double):
    """Logged epochs, replayed batch by batch."""
    import torch
    from ramannoodle.dataset.torch import PolarizabilityDataset
    from ramannoodle.pmodel.torch import train_single_epoch

    Logged, logged_step, Loss = instrumented()
    kind = torch.get_default_dtype()
    way, train_size, valid_size, batch = plan(rng, index)
    crystal = gen.describe(rng, ["rutile", "p1_three", "wurtzite", "p-1", "hcp", "p21c"][index % 6], max_atoms=4 if valid_size > 50 else 8)
    n = crystal.n
    numbers = [int(z) for z in crystal.numbers]
    inner = np.linalg.norm(gen.minimg(crystal.positions[1:] - crystal.positions[0]) @ crystal.lattice, axis=1).min()

    def make(count):
        positions = crystal.positions + rng.normal(size=(count, n, 3)) * 0.02
        pols = rng.normal(size=(count, 3, 3))
        return PolarizabilityDataset(crystal.lattice, numbers, positions, pols + pols.transpose(0, 2, 1))

    train, valid = make(train_size), make(valid_size)
    valid.scale_polarizabilities(train.mean_polarizability, train.stddev_polarizability)
    torch.manual_seed(int(rng.integers(2**31)))
    model = Logged(crystal.ref(), float(inner * 1.3 + 0.2), 3, 4, int(rng.integers(1, 3)), 0.0, 5.0, train.mean_polarizability, train.stddev_polarizability)
    if rng.random() < 0.5:
        with torch.no_grad():
            for p in model.parameters():
                p.add_(0.2 * torch.randn(p.shape))
    named = list(model.named_parameters())
    trainable = [p for _, p in named]
    if rng.random() < 0.3:
        chosen = rng.random(len(named)) < 0.6
        chosen[int(rng.integers(len(named)))] = True
        trainable = [p for (_, p), c in zip(named, chosen) if c]
        mon.event("frozen parameters")
    opt_kind = OPTIMIZERS[int(rng.integers(len(OPTIMIZERS)))]
    loss_kind = LOSSES[int(rng.integers(len(LOSSES)))]
    lr = float(rng.choice([1e-3, 2e-2]))
    index_of = {id(p): k for k, (_, p) in enumerate(named)}
    picked = [index_of[id(p)] for p in trainable]
    log = []
    optimizer = logged_step(make_optimizer(opt_kind, trainable, lr), log, model)
    loss = Loss(make_loss(loss_kind), log)
    mon.event("no momentum" if opt_kind == "SGD" else "momentum")
    mon.event("summed loss" if loss_kind == "summed" else "eager loss")
    if loss_kind in FACTORS:
        mon.event("losses of unusual size")
    # independent replica of network and optimizer
    twin = copy.deepcopy(model)
    twin_named = list(twin.named_parameters())
    twin_optimizer = make_optimizer(opt_kind, [twin_named[k][1] for k in picked], lr)
    twin_loss = make_loss(loss_kind)
    tol = 1e-9 if double else 2e-3
    count = 1 if rng.random() < 0.6 else int(rng.integers(2, 4))
    if count > 1:
        mon.event("several epochs")
    xs, ys = train.positions, train.scaled_polarizabilities
    vx, vy = valid.positions, valid.scaled_polarizabilities
    info = dict(way=way, train=train_size, valid=valid_size, batch=batch, optimizer=opt_kind, loss=loss_kind, lr=lr, double=double)
    rival = copy.deepcopy(model) if count == 1 else None
    for epoch in range(count):
        if rng.random() < 0.5:
            for p in model.parameters():
                p.grad = torch.randn(p.shape) * 50  # left over from earlier work
            mon.event("stale gradients")
        if rng.random() < 0.5:
            model.eval()
            mon.event("evaluation first")
        sets_before = [d.positions for d in (train, valid)] + [d.scaled_polarizabilities for d in (train, valid)]
        log.clear()
        model.log = log
        result = train_single_epoch(model, train, valid, batch, optimizer, loss)
        model.log = None
        mon.check(isinstance(result, tuple) and len(result) == 3, "three results", got=result)
        train_loss, valid_loss, variance = result
        sets_after = [d.positions for d in (train, valid)] + [d.scaled_polarizabilities for d in (train, valid)]
        mon.check(all(np.array_equal(a, b) for a, b in zip(sets_before, sets_after)), "an epoch changed a dataset", **info)
        # ---- the log, event by event
        steps = [k for k, e in enumerate(log) if e[0] == "step"]
        forwards = [k for k, e in enumerate(log) if e[0] == "forward"]
        last_step = steps[-1] if steps else -1
        training = [k for k in forwards if k < last_step]
        validation = [k for k in forwards if k > last_step]
        want = -(-train_size // batch)
        mon.check(len(training) == want and len(steps) == want, "one pass and one optimizer step per batch", passes=len(training), steps=len(steps), want=want, **info)
        for a, b in zip(training, steps):
            mon.check(a < b, "a step before its batch was seen", **info)
        for b, a in zip(steps, training[1:]):
            mon.check(b < a, "a batch seen before the step of the previous batch", **info)
        mon.check(all(log[k][4] == {True} for k in training), "training passes run in training mode", **info)
        mon.check(all(log[k][4] == {False} for k in validation), "validation passes run in evaluation mode", **info)
        sizes = sorted((len(log[k][1]) for k in training), reverse=True)
        full = [batch] * (train_size // batch) + ([train_size % batch] if train_size % batch else [])
        mon.check(sizes == full, "sizes of batches", got=sizes, want=full, **info)
        # every sample once
        seen = []
        for k in training:
            for p in log[k][1].numpy():
                match = [i for i in range(train_size) if np.array_equal(p, xs[i])]
                mon.check(bool(match), "a training pass saw a foreign sample", **info)
                seen += match
            mon.close(log[k][2].numpy(), np.repeat(crystal.lattice[None], len(log[k][1]), axis=0), "lattice of a batch", rtol=1e-6, atol=1e-9)
            mon.check(np.array_equal(log[k][3].numpy(), np.array([numbers] * len(log[k][1]))), "elements of a batch")
        mon.check(sorted(seen) == list(range(train_size)), "every training sample exactly once", got=sorted(seen), **info)
        looked = np.concatenate([log[k][1].numpy() for k in validation]) if validation else np.zeros((0, n, 3))
        found = sorted(i for p in looked for i in range(valid_size) if np.array_equal(p, vx[i]))
        mon.check(found == list(range(valid_size)), "every validation sample exactly once", got=found, **info)
        # ---- replay
        losses = []
        twin.train()
        for number, k in enumerate(training):
            rows = [next(i for i in range(train_size) if np.array_equal(p, xs[i])) for p in log[k][1].numpy()]
            for (name, p), (_, q) in zip(model.named_parameters(), twin_named):
                mon.close(log[k][5][name].numpy(), q.detach().numpy(), "parameters before a batch", rtol=0, atol=tol * (1 + np.abs(q.detach().numpy()).max()), parameter=name, number=number, **info)
            for p in twin.parameters():
                p.grad = None
            items = [train[i] for i in rows]
            out = twin.forward(torch.stack([x[0] for x in items]), torch.stack([x[1] for x in items]), torch.stack([x[2] for x in items]))
            value = twin_loss(out, torch.tensor(ys[rows], dtype=kind))
            losses.append(float(value))
            value.backward()
            scale = max([float(q.grad.abs().max()) for q in twin.parameters() if q.grad is not None] + [1e-12])
            for k2, (name, q) in enumerate(twin_named):
                got = log[steps[number]][1][name]
                if k2 not in picked:
                    continue  # gradients of parameters that are not trained do not matter
                wanted = torch.zeros_like(q) if q.grad is None else q.grad
                got = torch.zeros_like(q) if got is None else got
                mon.close(got.numpy(), wanted.numpy(), "gradients at an optimizer step are those of its batch", rtol=0, atol=100 * tol * scale, parameter=name, number=number, **info)
            twin_optimizer.step()
        twin.eval()
        for name, q in twin.state_dict().items():
            p = model.state_dict()[name]
            if double:
                mon.close(p.detach().numpy(), q.detach().numpy(), "state after the epoch", rtol=1e-6, atol=1e-7 * (1 + float(q.abs().max())), parameter=name, **info)
        if not double:
            twin.load_state_dict(model.state_dict())
        mon.close(train_loss, np.mean(losses), "training loss is the mean over batches before each update", rtol=1e-6 if double else 5e-2, atol=1e-9 * abs(FACTORS.get(loss_kind, 1)), losses=losses, **info)
        mon.check(not any(m.training for m in model.modules()), "the network is left in evaluation mode", **info)
        # ---- validation
        with torch.no_grad():
            outs = torch.cat([model.forward(*(x[None] for x in valid[i][:3])) for i in range(valid_size)])
            target = torch.tensor(vy, dtype=kind)
            honest = float(twin_loss(outs, target))
        vtol = 1e-6 if double else 1e-2
        mon.close(valid_loss, honest, "validation loss is that of the updated network on the validation set", rtol=vtol, atol=1e-9 * abs(FACTORS.get(loss_kind, 1)), **info)
        mon.close(variance, np.var(outs.numpy(), axis=0, ddof=1), "variance of the predictions on the validation set", rtol=vtol, atol=1e-9 if double else 1e-5, **info)
        if valid_size > 100:
            mon.event("long validation")
        mon.event("epochs")
        mon.event({"oversized": "one batch"}.get(way, way))
        mon.nontrivial(way, train_size, valid_size, batch, opt_kind, loss_kind, xs, epoch)
    mon.sample(**info, losses=losses, reported=(train_loss, valid_loss))
    # ---- another validation set must not matter for the parameters
    if rival is not None:
        rival_named = list(rival.named_parameters())
        rival_log = []
        rival_optimizer = make_optimizer(opt_kind, [rival_named[k][1] for k in picked], lr)
        state = torch.get_rng_state()
        train_single_epoch(rival, train, make(int(rng.integers(2, 7))), batch, rival_optimizer, Loss(make_loss(loss_kind), rival_log))
        torch.set_rng_state(state)
        again = {k: v.detach().numpy() for k, v in rival.state_dict().items()}
        # same order of batches? then the same parameters
        order_a = [e[2].numpy() for e in log if e[0] == "loss"]
        order_b = [e[2].numpy() for e in rival_log if e[0] == "loss"]
        if len(order_b) >= want and all(a.shape == b.shape and np.array_equal(a, b) for a, b in zip(order_a[:want], order_b[:want])):
            for name, value in again.items():
                mon.close(value, model.state_dict()[name].numpy(), "the validation set influenced the parameters", rtol=1e-9, atol=1e-12, parameter=name, **info)
            mon.event("other validation")
