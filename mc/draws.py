"""Complete distributions of a randomised result, by enumerating every draw."""

import itertools

import torch

from mc.engine import Enumerator
from mc import refs, rng, zoo
from mc.rng import Unmodelled, torch_draws


def result_distribution(ctx, compute):
    """All ``(probability, tensor)`` outcomes of ``compute()`` over the torch draws.

    Returns None if the implementation draws from a primitive without finite outcomes.
    """
    def body(draw):
        with torch_draws(draw):
            return compute()

    try:
        return [(w, v) for w, v, _ in Enumerator(ctx).run(body)]
    except Unmodelled:
        ctx.notes.append("unmodelled random primitive")
        return None


def sample_space(lossname, o, mc):
    """All (probability, [G_1 .. G_mc]) of would-be gradients at the outputs o [n, C]."""
    n, C = o.shape
    rows = []
    for i in range(n):
        outs = []
        if lossname == "ce":
            p = torch.softmax(o[i], 0)
            for k in range(C):
                e = torch.zeros(C, dtype=o.dtype)
                e[k] = 1
                outs.append((float(p[k]), p - e))
        elif lossname == "bce":
            p = torch.sigmoid(o[i])
            for bits in itertools.product([0.0, 1.0], repeat=C):
                b = torch.tensor(bits, dtype=o.dtype)
                w = torch.where(b > 0, p, 1 - p).prod()
                outs.append((float(w), p - b))
        else:  # +- one standard deviation of N(f, 1/2); gradient 2 (f - y)
            for bits in itertools.product([-1.0, 1.0], repeat=C):
                b = torch.tensor(bits, dtype=o.dtype)
                outs.append((0.5**C, 2 * (0.5**0.5) * b))
        rows.append(outs)
    for combo in itertools.product(*(rows * mc)):
        w = 1.0
        for q, _ in combo:
            w *= q
        yield w, [torch.stack([g for _, g in combo[m * n : (m + 1) * n]]) for m in range(mc)]


def as_histogram(dist, digits=9):
    """Merge outcomes with (numerically) equal results; order independent.

    Outcomes are identified by a fixed generic linear functional of the result.
    """
    vals = sorted(((float(_probe(v)), w) for w, v in dist))
    scale = max((abs(v) for v, _ in vals), default=0.0) + 1e-30
    out = []
    for v, w in vals:
        if out and abs(v - out[-1][0]) <= 1e-7 * scale:
            out[-1][1] += w
        else:
            out.append([v, w])
    return out, scale


def _probe(v):
    v = v.reshape(-1).to(torch.float64)
    c = torch.cos(1.0 + 1.7 * torch.arange(v.numel(), dtype=torch.float64)) + 1.3
    return (c * v).sum()


def same_distribution(d1, d2):
    h1, s1 = as_histogram(d1)
    h2, s2 = as_histogram(d2)
    s = max(s1, s2)
    if len(h1) != len(h2):
        return False
    return all(abs(a - b) <= 1e-6 * s and abs(p - q) <= 1e-9 for (a, p), (b, q) in zip(h1, h2))


def mean(dist):
    tot = sum(w for w, _ in dist)
    return sum(w * v for w, v in dist) / tot

def script(flip):
    """All draws have their first outcome, except the one at position ``flip`` (or all, or none)."""
    served = [0]

    def draw(probs):
        i = served[0]
        served[0] += 1
        return 1 if flip == "all" or flip == i else 0

    draw.served = served
    return draw


_base = {}


def many_samples(ctx, compute, reference, key, P, S):
    """Each of many label draws enters the result with its weight 1 / mc_samples.

    The result is a sum over draws: flipping one changes it by that datum's share, flipping all by everything.
    """
    flip = ctx.choose("flipped draw", ["all", *range(P.N * S)], free=True)
    key = (key, P.key, S)
    if key not in _base:
        if len(_base) > 20:
            _base.clear()
        o, _ = refs.term_outputs(P)
        outcome = {}
        for _, (G,) in sample_space(P.lossname, o, 1):  # (all labels of all data)
            outcome[tuple((G * 1e6).round().flatten().tolist())] = G
        per_datum = []
        for n in range(P.N):
            vals = {tuple((G[n] * 1e6).round().tolist()): G[n] for G in outcome.values()}
            per_datum.append(list(vals.values()))
        firsts = torch.stack([v[0] for v in per_datum])
        lasts = torch.stack([v[-1] for v in per_datum])
        shares = []
        for n in range(P.N):
            G = firsts.clone()
            G[n] = lasts[n]
            shares.append(reference(G) - reference(firsts))
        _base[key] = reference(firsts), reference(lasts), shares
    low, high, shares = _base[key]
    draw = script(flip)
    with rng.torch_draws(draw):
        got = compute()
    TOL = dict(rtol=1e-6, atol=1e-9)
    if draw.served[0] != P.N * S:
        ctx.check(flip == "all" or flip < draw.served[0], f"{draw.served[0]} draws for {P.N} data and {S} samples")
    if flip == "all":
        ctx.check(zoo.close(got, high, **TOL) or zoo.close(got, low, **TOL), "all labels at once: wrong result")
        return
    size = 1e-6 * float(low.abs().max() + high.abs().max()) / S + 1e-12
    ok = any(float((got - (base + sign * s / S)).abs().max()) <= size
             for base, sign in ((low, 1.0), (high, -1.0)) for s in shares)
    ctx.check(ok, f"draw {flip} of {P.N * S} does not have its weight 1/{S}")


def outcomes():
    """A fixed sequence of outcomes."""
    state = [12345]

    def draw(probs):
        state[0] = (state[0] * 1103515245 + 12345) % 2**31
        allowed = [i for i, p in enumerate(probs) if p > 0]
        return allowed[(state[0] >> 8) % len(allowed)]

    return draw
