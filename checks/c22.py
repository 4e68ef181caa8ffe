"""C22: Hutch++ over every outcome of its basis and sample draws."""

from itertools import product

import numpy as np
from scipy.sparse.linalg import LinearOperator, aslinearoperator

from checks.c18 import Op
from checks.c21 import MATRICES, signs
from checks.common import *
from mc import engine, rng, zoo


def conditional(ctx, make, calls, prepare=True):
    """Enumerate construction, basis and ``calls`` samples.

    Returns ``{basis draws: [(weight, sample values)]}``.
    """
    def body(draw):
        n = [0]

        def counted(probs):
            n[0] += 1
            return draw(probs)

        with rng.NumpyDraws(counted):
            est = make()
            if prepare:
                est.maybe_compute_and_cache_subspace()
            split = n[0]
            vals = [est.sample(*a) for a in calls]
        return split, vals

    groups = {}
    for w, (split, vals), path in engine.Enumerator(ctx).run(body):
        ctx.check(all(np.shape(v) == () for v in vals), "a sample must be a number")
        groups.setdefault(tuple(path[:split]), []).append((w, [float(v) for v in vals]))
    return groups


def reference(A, S):
    """All sample values for the basis drawn as S (None if A S is rank deficient)."""
    AS = A @ S
    if np.linalg.matrix_rank(AS, tol=1e-9) < S.shape[1]:
        return None
    U, _, _ = np.linalg.svd(AS, full_matrices=False)
    Pr = U @ U.T
    R = np.eye(len(A)) - Pr
    return sorted(float(np.trace(Pr @ A) + v @ R @ A @ R @ v) for v in signs(len(A)))


def laws(ctx):
    from curvlinops import HutchPPTraceEstimator

    n, s = ctx.choose("dimension, basis", [(3, 1), (2, 1), (2, 2), (3, 2), (4, 1), (1, 1), (3, 3)], free=True)
    if n * (s + 1) > 9 and ctx.tier == "quick":
        ctx.skip()
    name = ctx.choose("matrix", ["generic", "symmetric", "diagonal", "strictly upper", "rank one", "zero", "int"],
                      free=True)
    dists = ctx.choose("distributions", list(product(["rademacher", "normal"], repeat=2)), free=True)
    wrap = ctx.choose("operator", ["matrix", "user"])
    prepare = ctx.choose("subspace", ["explicit", "first sample"])
    A = MATRICES[name](n, n).astype(float)
    op = aslinearoperator(A) if wrap == "matrix" else Op(A)

    def make():
        est = HutchPPTraceEstimator(op, basis_dim=s, basis_distribution=dists[0])
        if prepare == "first sample":
            est.sample(dists[1])
        return est

    if prepare == "first sample" and n * (s + 2) > (8 if ctx.tier == "quick" else 10):
        ctx.skip()
    groups = conditional(ctx, make, [(dists[1],)])
    tr, scale = np.trace(A), 1 + np.abs(A).max() * n
    tables = []
    for g in groups.values():
        W = sum(w for w, _ in g)
        mean = sum(w * v[0] for w, v in g) / W
        ctx.check(abs(mean - tr) <= 1e-8 * scale, f"expectation given the basis {mean}, trace {tr}")
        tables.append(sorted(v[0] for _, v in g))
        ctx.check(len(g) == 2**n, f"{len(g)} outcomes of a sample given the basis, expected {2**n}")
    # every full-rank basis gives the values of the definition
    refs = [reference(A, np.array(c).T) for c in product(signs(n), repeat=s)]
    mult = (2**n if prepare == "first sample" else 1)
    for r in refs:
        if r is None:
            continue
        want = sum(1 for q in refs if q is not None and np.allclose(q, r, atol=1e-7 * scale)) * mult
        have = sum(1 for t in tables if np.allclose(t, r, atol=1e-7 * scale))
        ctx.check(have >= want, "a basis does not give the values of its definition")
    ctx.check(len(tables) == mult * 2 ** (n * s), f"{len(tables)} bases, expected {mult * 2 ** (n * s)}")


def histories(ctx):
    """The basis is drawn once and kept; samples are independent; objects do not interfere."""
    from curvlinops import HutchPPTraceEstimator

    what = ctx.choose("history", ["two samples", "prepare between", "other object", "prepare twice"], free=True)
    name = ctx.choose("matrix", ["generic", "symmetric"], free=True)
    dist = ctx.choose("distribution", ["rademacher", "normal"], free=True)
    A = MATRICES[name](2, 2)
    op = aslinearoperator(A)

    class Both:
        """Drives two estimators or an interleaved history through one interface."""

        def __init__(self):
            self.a = HutchPPTraceEstimator(op, basis_dim=1)
            self.b = HutchPPTraceEstimator(op, basis_dim=1) if what == "other object" else None

        def maybe_compute_and_cache_subspace(self):
            self.a.maybe_compute_and_cache_subspace()
            if what == "prepare twice":
                self.a.maybe_compute_and_cache_subspace()
            if self.b is not None:
                self.b.maybe_compute_and_cache_subspace()

        def sample(self, d, k):
            if k == 1 and what == "prepare between":
                self.a.maybe_compute_and_cache_subspace()
            return (self.b if self.b is not None and k == 1 else self.a).sample(d)

    groups = conditional(ctx, Both, [(dist, 0), (dist, 1)])
    nb = 4 if what == "other object" else 2
    ctx.check(len(groups) == 2 ** (nb if what == "other object" else 2), f"{len(groups)} bases")
    ref = {}
    for S in product(signs(2), repeat=1):
        ref[tuple(S[0])] = reference(A, np.array(S).T)
    tr = np.trace(A)
    for g in groups.values():
        ctx.check(len(g) == 16, f"{len(g)} outcomes of two samples given the basis, expected 16")
        first = sorted(v[0] for _, v in g)
        second = sorted(v[1] for _, v in g)
        opts = [sorted(r * 4) for r in ref.values()]
        ctx.check(any(np.allclose(first, o, atol=1e-8) for o in opts), "law of the first sample")
        ctx.check(any(np.allclose(second, o, atol=1e-8) for o in opts), "law of the second sample")
        if what != "other object":
            ctx.check(np.allclose(first, second, atol=1e-8), "the basis changed between two samples")
        cov = sum(w * (v[0] - tr) * (v[1] - tr) for w, v in g) / sum(w for w, _ in g)
        ctx.check(abs(cov) <= 1e-8, f"two samples are correlated: {cov}")


class Fault(Exception):
    pass


class Flaky(LinearOperator):
    """Raises at its k-th product."""

    def __init__(self, A, k):
        super().__init__(A.dtype, A.shape)
        self.A, self.k, self.n = A, k, 0

    def _matvec(self, x):
        self.n += 1
        if self.n == self.k:
            raise Fault
        return self.A @ x


def faults(ctx):
    """A failing product never leaves a half-computed subspace behind."""
    from curvlinops import HutchPPTraceEstimator

    k = ctx.choose("failing product", [1, 2, 3, 4, 5, 6], free=True)
    s = ctx.choose("basis_dim", [2, 1], free=True)
    how = ctx.choose("first call", ["sample", "prepare"], free=True)
    A = MATRICES["generic"](2, 2)
    hit = [0]

    def make():
        op = Flaky(A, k)
        est = HutchPPTraceEstimator(op, basis_dim=s)
        for _ in range(2):
            try:
                est.sample() if how == "sample" else est.maybe_compute_and_cache_subspace()
            except Fault:
                hit[0] += 1
        op.k = -1
        return est

    groups = conditional(ctx, make, [("rademacher",)])
    for g in groups.values():
        W = sum(w for w, _ in g)
        mean = sum(w * v[0] for w, v in g) / W
        ctx.check(abs(mean - np.trace(A)) <= 1e-8, f"after a failure: expectation {mean}, trace {np.trace(A)}")


def exactness(ctx):
    """Rank(A) <= basis: no variance (real generators; every seed of the list)."""
    from curvlinops import HutchPPTraceEstimator

    n = ctx.choose("n", [3, 5, 8], free=True)
    r = ctx.choose("rank", [1, 2, 3], free=True)
    s = ctx.choose("basis_dim", [1, 2, 3, "n"], free=True)
    seed = ctx.choose("seed", list(range(8)), free=True)
    dist = ctx.choose("basis distribution", ["normal", "rademacher"], free=True)
    s = n if s == "n" else s
    scale = ctx.choose("scale", [1.0, 1e-12, 1e12], free=True)
    U = zoo.rand(n, r, seed=n).numpy()
    A = scale * U @ U.T
    np.random.seed(seed)
    est = HutchPPTraceEstimator(aslinearoperator(A), basis_dim=s, basis_distribution=dist)
    vals = [est.sample(d) for d in ("rademacher", "normal")]
    if s >= r and dist == "normal":
        ctx.check(np.allclose(vals, np.trace(A), rtol=1e-7, atol=0), f"{vals} instead of the exact trace {np.trace(A)}")
    np.random.seed(seed)
    est = HutchPPTraceEstimator(aslinearoperator(A), basis_dim=s, basis_distribution=dist)
    ctx.check(np.allclose([est.sample(d) for d in ("rademacher", "normal")], vals, rtol=1e-12, atol=0), "not reproducible")
    if s < min(r, n) and n > s:
        I = HutchPPTraceEstimator(aslinearoperator(np.eye(n)), basis_dim=s, basis_distribution=dist)
        x = I.sample("normal")
        ctx.check(abs(x - n) > 1e-9, "normal samples have random length")


def invalid(ctx):
    from curvlinops import HutchPPTraceEstimator

    how = ctx.choose("input", ["tall", "wide", "basis too large", "basis = n", "default", "distribution",
                               "basis distribution", "default large"], free=True)
    n = ctx.choose("n", [1, 2, 5], free=True)
    A = np.eye(n)
    kw = {}
    ok = how in ("basis = n", "default", "default large")
    if how == "tall":
        A = np.ones((n + 1, n))
    elif how == "wide":
        A = np.ones((n, n + 1))
    elif how == "basis too large":
        kw["basis_dim"] = n + 1
    elif how == "basis = n":
        kw["basis_dim"] = n
    elif how == "basis distribution":
        kw["basis_distribution"] = "unknown"
    elif how == "default large":
        A = np.diag(np.arange(1.0, 100 * n + 1))
    try:
        est = HutchPPTraceEstimator(aslinearoperator(A), **kw)
        x = est.sample("unknown" if how == "distribution" else "rademacher")
    except ValueError:
        ctx.check(not ok, f"{how}: rejected")
        return
    ctx.check(ok, f"{how}: accepted")
    ctx.check(np.isfinite(x), "not finite")


def default_size(ctx):
    """Without a requested size the subspace has at most 1% of the dimensions (but one), and at most 10."""
    from curvlinops import HutchPPTraceEstimator

    n = ctx.choose("n", [3, 99, 150, 250, 300, 999, 1000, 1250, 2400], free=True)
    extra = ctx.choose("rank", ["one", "limit", "limit plus one"], free=True)
    seed = ctx.choose("seed", [0, 1, 2], free=True)
    limit = min(10, max(n // 100, 1))
    r = {"one": 1, "limit": limit, "limit plus one": limit + 1}[extra]
    if extra == "limit" and n % 100 and n < 1000:
        ctx.skip()  # (the rounding of 1% is not specified)
    U = zoo.rand(n, r, seed=n).numpy()
    est = HutchPPTraceEstimator(LinearOperator((n, n), matvec=lambda v: U @ (U.T @ v), dtype=U.dtype),
                                basis_distribution="normal")
    np.random.seed(seed)
    vals = np.array([est.sample("normal") for _ in range(2)])
    exact = np.allclose(vals, (U**2).sum(), rtol=1e-7, atol=0)
    ctx.check(exact == (r <= limit), f"rank {r}: {vals}, trace {(U**2).sum()}")


def large(ctx):
    """Large subspaces: exact once they contain the range of the matrix."""
    from curvlinops import HutchPPTraceEstimator

    n = ctx.choose("n", [90, 200], free=True)
    dim = ctx.choose("basis_dim", [12, 33, 64, 90], free=True)
    rank = ctx.choose("rank", ["equal", "one less", "one more"], free=True)
    dists = ctx.choose("distributions", ["normal", "rademacher"], free=True)
    seed = ctx.choose("seed", [0, 1], free=True)
    r = dim + {"equal": 0, "one less": -1, "one more": 1}[rank]
    if r > n:
        ctx.skip()
    U, V = zoo.rand(n, r, seed=2).numpy(), zoo.rand(r, n, seed=3).numpy()
    A = U @ V
    np.random.seed(seed)
    est = HutchPPTraceEstimator(aslinearoperator(A), basis_dim=dim, basis_distribution=dists)
    vals = np.array([est.sample("normal") for _ in range(3)])
    exact = np.allclose(vals, np.trace(A), rtol=1e-6, atol=1e-6)
    ctx.check(exact == (r <= dim), f"rank {r}, {dim} vectors: {vals}, trace {np.trace(A)}")


ASSUMPTIONS = ["normal draws are replaced by the two-point law with the same first two moments",
               "dimension 2-4, all bases and samples over sign vectors; larger dimensions with real generators"]


def scenarios(tier):
    return [
        ("laws", laws, 1, "matrix x basis size x distributions x every basis x every sample vector"),
        ("histories", histories, None, "joint law of two samples given the basis"),
        ("faults", faults, None, "every failing product, then a clean sample, over all draws"),
        ("default size", default_size, None, "dimension x rank around the default size of the subspace"),
        ("exactness", exactness, None, "low-rank matrices"),
        ("invalid", invalid, None, "argument validation"),
        ("large", large, None, "subspaces of up to 90 vectors: exact up to the corresponding rank and no further"),
    ]
