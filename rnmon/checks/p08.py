"""P08: masking removes exactly the masked contributions and never leaks."""

import re

import numpy as np

from rnmon import elements, gen, models
from rnmon.core import case

RULE = "distinct (model, mask) pairs whose prediction was compared with the sum of the unmasked contributions"
ASSUMPTIONS = [
    "contributions: one-degree-of-freedom models built from the same data (linear data additionally compared with the analytic response)",
    "a masked copy masks exactly the degrees of freedom listed, whether or not the model it is made from is masked (the mask is reset)",
]
REQUIRED_EVENTS = ["masks", "partitions", "unmasked", "index queries", "copies kept", "originals kept", "grown copies", "mask setter"]


def build(crystal, rng, kind):
    """Model plus per-degree-of-freedom contribution functions."""
    art_class, interp = models.classes()
    degree = 1 if kind == "art" else int(rng.integers(1, 4))
    response = gen.Response(crystal, rng, degree=degree)
    taken = []
    limit_dofs = None if rng.random() < 0.5 else int(rng.integers(1, 3 * crystal.n + 1))
    model = models.complete(crystal, response, rng, art=kind == "art", order=degree, record=taken, collective=kind == "collective", limit_dofs=limit_dofs)
    singles = []
    for args in taken:
        single = (art_class if kind == "art" else interp)(crystal.ref(), response.ref.copy())
        (single.add_art if kind == "art" else single.add_dof)(*args)
        basis = single.cart_basis_vectors
        curves = single.interpolations
        singles += list(zip(basis, curves))
    return model, response, singles, degree


def truth(singles, mask, ref, fields):
    out = np.repeat(ref[None], len(fields), axis=0)
    for (e, curve), masked in zip(singles, mask):
        if not masked:
            out = out + np.array([curve(np.sum(e * u)) for u in fields])
    return out


@case(quick=64, thorough=5000)
def masks(mon, rng, index):
    crystal = gen.describe(rng, gen.NAMES[index % len(gen.NAMES)] if index % 2 else None, max_atoms=8)
    kind = ["art", "interp", "collective"][index % 3]
    model, response, singles, degree = build(crystal, rng, kind)
    j = len(model.cart_basis_vectors)
    info = dict(crystal=crystal, kind=kind, dofs=j)
    mon.check(len(singles) == j, "degrees of freedom of single additions", singles=len(singles), **info)
    for (e, _), b in zip(singles, model.cart_basis_vectors):
        mon.close(b, e, "basis of single additions", rtol=0, atol=1e-9, **info)
    fields = rng.normal(size=(6, crystal.n, 3))
    fields = np.array([f * models.limit(crystal, f, 0.05) for f in fields])
    pos = models.moved(crystal, fields)
    full = model.calc_polarizabilities(pos)
    ref = model.ref_polarizability
    scale = max(np.abs(full).max(), np.abs(ref).max())
    mon.close(full, truth(singles, np.zeros(j, bool), ref, fields), "unmasked prediction is the sum of all contributions", rtol=0, atol=1e-8 * scale, **info)
    before = models.state(model, pos)

    def random_mask():
        choice = int(rng.integers(5))
        if choice == 0:
            return []
        if choice == 1:
            return list(range(j))
        if choice == 2:
            return [int(rng.integers(j))]
        return sorted(int(x) for x in rng.permutation(j)[: int(rng.integers(1, j + 1))])

    for _ in range(4):
        chosen = random_mask()
        given = chosen + chosen[:1] if rng.random() < 0.2 else [int(x) for x in rng.permutation(chosen)]
        if rng.random() < 0.2:
            given = [g - j for g in given]  # counted from the end
        copy = model.get_masked_model(list(given))
        want = np.zeros(j, dtype=bool)
        want[chosen] = True
        mon.check(type(copy) is type(model), "masked copy has the model's type")
        mon.check(np.array_equal(copy.mask, want), "mask of the copy", got=copy.mask, want=want, **info)
        got = copy.calc_polarizabilities(pos)
        mon.close(got, truth(singles, want, ref, fields), "masked prediction is the reference plus the unmasked contributions", rtol=0, atol=1e-8 * scale, mask=want, **info)
        if degree == 1:
            linear = np.array([ref + sum(np.sum(e * u) * response.linear(e) for (e, _), m in zip(singles, want) if not m) for u in fields])
            offset = got - linear
            # first-order data of a linear response: no offset either
            mon.close(offset, np.zeros_like(offset), "masked prediction equals the analytic partial response", rtol=0, atol=1e-6 * scale, mask=want, **info)
        mon.event("masks")
        mon.nontrivial(crystal.name, crystal.lattice, kind, want)
        mon.check(models.state(model, pos) == before, "making or using a masked copy changed the original", mask=want, **info)
        mon.event("originals kept")
        # complementary masks partition the response
        rest = model.get_masked_model([k for k in range(j) if not want[k]])
        mon.close((got - ref) + (rest.calc_polarizabilities(pos) - ref), full - ref, "partial responses do not add up to the full one", rtol=0, atol=1e-8 * scale, mask=want, **info)
        mon.event("partitions")
        # masking the copy again
        other = random_mask()
        again = copy.get_masked_model(list(other))
        mon.check(np.array_equal(again.mask, [k in other for k in range(j)]), "masked copy of a masked model: exactly the listed ones are masked", got=again.mask, listed=other, **info)
        for m in (copy, again, model):
            said = re.findall(r"(\d+)/(\d+) [^\n]*masked", repr(m))
            hidden = int(m.mask.sum())
            mon.check(said == ([(str(hidden), str(j))] if hidden else []), "printed summary and the mask", summary=repr(m), mask=m.mask, **info)
        mon.close(again.calc_polarizabilities(pos), truth(singles, again.mask, ref, fields), "prediction matches the reported mask", rtol=0, atol=1e-8 * scale, **info)
        mon.check(np.array_equal(copy.mask, want), "masking a copy changed the first copy", **info)
        # clearing
        again.unmask()
        mon.check(not again.mask.any(), "unmask clears the mask")
        mon.check(np.array_equal(again.calc_polarizabilities(pos), full), "clearing the mask restores the full prediction", **info)
        mon.check(np.array_equal(copy.calc_polarizabilities(pos), got), "clearing a copy's mask changed another model", **info)
        mon.event("unmasked")
        # setter
        array = np.array(rng.random(j) < 0.5)
        kept = array.copy()
        again.mask = array
        array[:] = ~array
        mon.check(np.array_equal(again.mask, kept), "mask shares memory with the array assigned", **info)
        again.mask[:] = ~kept
        mon.check(np.array_equal(again.mask, kept), "mask property is not a copy", **info)
        mon.close(again.calc_polarizabilities(pos), truth(singles, kept, ref, fields), "prediction after setting the mask", rtol=0, atol=1e-8 * scale, **info)
        for bad in (np.zeros(j + 1, bool), np.zeros((j, 1), bool), [False] * j):
            mon.raises((ValueError, TypeError), "mask of a wrong shape or type", setattr, again, "mask", bad)
        mon.check(np.array_equal(again.mask, kept), "a refused mask changed the mask", **info)
        mon.event("mask setter")
        mon.check(models.state(model, pos) == before, "changing a copy's mask changed the original", **info)
        mon.event("copies kept")
    # changing the original does not touch copies
    copy = model.get_masked_model([0])
    kept = models.state(copy, pos)
    model.mask = np.ones(j, dtype=bool)
    mon.close(model.calc_polarizabilities(pos), np.repeat(ref[None], len(pos), 0), "fully masked model predicts the reference", rtol=0, atol=1e-9 * scale, **info)
    mon.check(models.state(copy, pos) == kept, "changing the original changed a copy", **info)
    model.unmask()
    mon.check(models.state(model, pos) == before, "unmask restores the model", **info)
    mon.sample(crystal=crystal, kind=kind, dofs=j)


@case(quick=24, thorough=2000)
def growing(mon, rng, index):
    """Building further on a copy or on the original."""
    art_class, interp = models.classes()
    art = bool(index % 2)
    crystal = gen.BASE[["p1", "p1_three", "p-1", "p2", "ortho", "tet_polar"][(index // 2) % 6]].rotated(gen.rotation(rng))
    response = gen.Response(crystal, rng, degree=1)
    taken = []
    models.complete(crystal, response, rng, art=art, record=taken)
    cut = int(rng.integers(1, len(taken)))
    add = (lambda m, args: m.add_art(*args)) if art else (lambda m, args: m.add_dof(*args))
    model = (art_class if art else interp)(crystal.ref(), response.ref.copy())
    counts = []
    for args in taken[:cut]:
        add(model, args)
        counts.append(len(model.cart_basis_vectors))
    j = len(model.cart_basis_vectors)
    fields = rng.normal(size=(4, crystal.n, 3))
    fields = np.array([f * models.limit(crystal, f, 0.05) for f in fields])
    pos = models.moved(crystal, fields)
    before = models.state(model, pos)
    masked = sorted(int(x) for x in rng.permutation(j)[: int(rng.integers(1, j + 1))])
    copy = model.get_masked_model(masked)
    second = model.get_masked_model([])
    scale = np.abs(response.ref).max()
    info = dict(crystal=crystal, art=art, masked=masked)

    def analytic(m):
        return np.array([response.ref + sum(np.sum(e * u) * response.linear(e) for e, off in zip(m.cart_basis_vectors, m.mask) if not off) for u in fields])

    for args in taken[cut:]:
        add(copy, args)
    total = len(copy.cart_basis_vectors)
    mon.check(np.array_equal(copy.mask, [k in masked for k in range(total)]), "new degrees of freedom are unmasked, old masks stay", mask=copy.mask, **info)
    mon.close(copy.calc_polarizabilities(pos), analytic(copy), "prediction of a masked copy built upon", rtol=0, atol=1e-6 * scale, **info)
    mon.check(models.state(model, pos) == before, "building on a copy changed the original", **info)
    mon.check(models.state(second, pos) == before, "building on a copy changed another copy", **info)
    mon.event("grown copies")
    frozen = models.state(copy, pos)
    add(model, taken[cut])
    mon.check(models.state(copy, pos) == frozen, "building on the original changed a copy", **info)
    mon.check(models.state(second, pos) == before, "building on the original changed an unmasked copy", **info)
    mon.close(model.calc_polarizabilities(pos), analytic(model), "prediction of the original after copies were made", rtol=0, atol=1e-6 * scale, **info)
    second.unmask()
    for args in taken[cut:]:
        add(second, args)
    mon.close(second.calc_polarizabilities(pos), np.array([response.alpha(u) for u in fields]), "unmasked complete copy", rtol=0, atol=1e-5 * scale, **info)
    mon.nontrivial("growing", crystal.lattice, art, masked)


@case(quick=50, thorough=4000)
def indexes(mon, rng, index):
    """Degree-of-freedom indexes of atoms and symbols."""
    crystal = gen.describe(rng, gen.NAMES[index % len(gen.NAMES)], max_atoms=8)
    response = gen.Response(crystal, rng, degree=1)
    limit_dofs = None if index % 2 else int(rng.integers(1, 3 * crystal.n + 1))
    model = models.complete(crystal, response, rng, art=True, limit_dofs=limit_dofs)
    basis = np.array(model.cart_basis_vectors)
    moves = np.abs(basis).max(axis=2) > 1e-6
    symbols = [elements.SYMBOL[z] for z in crystal.numbers]
    info = dict(crystal=crystal, dofs=len(basis))

    def want(items):
        atoms = set()
        for item in items:
            atoms |= {k for k, s in enumerate(symbols) if s == item} if isinstance(item, str) else {item}
        return sorted(d for d in range(len(basis)) if any(moves[d, a] for a in atoms))

    queries = [[k] for k in range(crystal.n)] + [[s] for s in sorted(set(symbols))]
    queries += [list(range(crystal.n)), sorted(set(symbols)), []]
    for _ in range(4):
        mixed = [int(x) for x in rng.integers(0, crystal.n, int(rng.integers(1, 4)))] + [symbols[int(x)] for x in rng.integers(0, crystal.n, int(rng.integers(0, 3)))]
        queries.append([mixed[i] for i in rng.permutation(len(mixed))])
    before = models.state(model)
    for query in queries:
        given = query[0] if len(query) == 1 and rng.random() < 0.5 else list(query)
        got = model.get_dof_indexes(given)
        mon.same(sorted(int(x) for x in got), want(query), "degree-of-freedom indexes of atoms", query=query, **info)
        mon.check(given == query or given == query[0], "query list unchanged")
        mon.event("index queries")
        if got:
            copy = model.get_masked_model(got)
            atoms = {k for q in query for k in ([q] if not isinstance(q, str) else [i for i, s in enumerate(symbols) if s == q])}
            # motion of the masked atoms alone no longer contributes
            u = np.zeros((crystal.n, 3))
            u[sorted(atoms)] = rng.normal(size=(len(atoms), 3))
            u *= models.limit(crystal, u, 0.05)
            mon.close(models.predict(copy, crystal, u), response.ref, "masked atoms still contribute", rtol=0, atol=1e-6 * np.abs(response.ref).max(), query=query, **info)
            mon.nontrivial("query", crystal.name, crystal.lattice, query)
    mon.check(models.state(model) == before, "index queries change nothing", **info)
