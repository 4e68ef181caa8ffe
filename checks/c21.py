"""C21: Hutchinson estimators over every outcome of their random vector."""

from itertools import product

import numpy as np
from scipy.sparse.linalg import aslinearoperator

from checks.c18 import Op
from checks.common import *
from mc import engine, rng, zoo

EST = ["trace", "diag", "frob"]


def cls(what):
    import curvlinops as c

    return {"trace": c.HutchinsonTraceEstimator, "diag": c.HutchinsonDiagonalEstimator,
            "frob": c.HutchinsonSquaredFrobeniusNormEstimator}[what]


def exact(what, A):
    return {"trace": lambda: np.trace(A), "diag": lambda: np.diag(A), "frob": lambda: (A**2).sum()}[what]()


def value(what, A, v):
    return {"trace": lambda: v @ A @ v, "diag": lambda: v * (A @ v), "frob": lambda: (A @ v) @ (A @ v)}[what]()


def signs(n):
    return [np.array(s) for s in product([-1.0, 1.0], repeat=n)]


def same_law(got, ref, tol=1e-9):
    """Equality of two finite laws, each a list of (weight, vector)."""
    def canon(law):
        d = {}
        for w, x in law:
            k = tuple(np.round(np.atleast_1d(x).ravel() / tol / 10).astype(np.int64))
            d[k] = d.get(k, 0.0) + w
        return d

    a, b = canon(got), canon(ref)
    if a.keys() != b.keys():  # rounding may fall on a boundary: match approximately
        ga = sorted(((np.atleast_1d(x).ravel().tolist(), w) for w, x in got))
        gb = sorted(((np.atleast_1d(x).ravel().tolist(), w) for w, x in ref))
        for x, _ in ga + gb:
            pa = sum(w for y, w in ga if np.allclose(x, y, rtol=1e-7, atol=1e-7))
            pb = sum(w for y, w in gb if np.allclose(x, y, rtol=1e-7, atol=1e-7))
            if abs(pa - pb) > 1e-9:
                return False
        return True
    return all(abs(a[k] - b[k]) < 1e-9 for k in a)


MATRICES = {
    "generic": lambda n, m: zoo.rand(n, m, seed=n).numpy() * 3,
    "symmetric": lambda n, m: (lambda B: B + B.T)(zoo.rand(n, n, seed=n + 1).numpy()),
    "diagonal": lambda n, m: np.diag(np.arange(1.0, n + 1)),
    "strictly upper": lambda n, m: np.triu(zoo.rand(n, n, seed=3).numpy(), 1),
    "rank one": lambda n, m: np.outer(np.arange(1.0, n + 1), np.linspace(-1, 2, m)),
    "zero": lambda n, m: np.zeros((n, m)),
    "float32": lambda n, m: (zoo.rand(n, m, seed=n).numpy() * 3).astype(np.float32),
    "int": lambda n, m: np.arange(1, n * m + 1).reshape(n, m) % 5,
}


def laws(ctx):
    what = ctx.choose("estimator", EST, free=True)
    dist = ctx.choose("distribution", ["rademacher", "normal", "default"], free=True)
    n = ctx.choose("n", [3, 2, 1, 4], free=True)
    name = ctx.choose("matrix", list(MATRICES), free=True)
    m = ctx.choose("columns", [n, n + 1, 1]) if what == "frob" and name in ("generic", "rank one", "zero") else n
    wrap = ctx.choose("operator", ["matrix", "user"])
    times = ctx.choose("sample number", [1, 2, 3])
    A = MATRICES[name](n, m)
    est = cls(what)(aslinearoperator(A) if wrap == "matrix" else Op(A))
    args = () if dist == "default" else (dist,)
    for _ in range(times - 1):
        est.sample(*args)

    def body(draw):
        with rng.NumpyDraws(draw):
            return est.sample(*args)

    out = engine.Enumerator(ctx).run(body)
    ctx.check(abs(sum(w for w, _, _ in out) - 1) < 1e-12, "weights")
    shape = (n,) if what == "diag" else ()
    ctx.check(all(np.shape(x) == shape for _, x, _ in out), f"shape of a sample, expected {shape}")
    mean = sum(w * np.asarray(x, dtype=float) for w, x, _ in out)
    A = A.astype(float)
    want = exact(what, A)
    s = 1 + np.abs(A).max() ** 2 * n * m
    tol = 1e-5 if name == "float32" else 1e-10
    ctx.check(np.abs(mean - want).max() <= tol * s, f"expectation {mean}, exact {want}")
    if name != "float32":
        ref = [(2.0**-m, value(what, A, v)) for v in signs(m)]
        ctx.check(same_law([(w, x) for w, x, _ in out], ref), "the law of a sample differs from its definition")


def independence(ctx):
    """Two successive samples (of one or of two estimators) are independent."""
    what = ctx.choose("first", EST, free=True)
    other = ctx.choose("second", EST + ["same object"], free=True)
    dists = ctx.choose("distributions", list(product(["rademacher", "normal"], repeat=2)), free=True)
    A = MATRICES["generic"](2, 2)
    op = aslinearoperator(A)

    def body(draw):
        with rng.NumpyDraws(draw):
            e1 = cls(what)(op)
            e2 = e1 if other == "same object" else cls(other)(op)
            return np.concatenate([np.atleast_1d(e1.sample(dists[0])), np.atleast_1d(e2.sample(dists[1]))])

    out = engine.Enumerator(ctx).run(body)
    o = what if other == "same object" else other
    ref = [(1 / 16, np.concatenate([np.atleast_1d(value(what, A, v)), np.atleast_1d(value(o, A, w))]))
           for v in signs(2) for w in signs(2)]
    ctx.check(same_law([(w, x) for w, x, _ in out], ref), "successive samples are not independent")


def distributions(ctx):
    """The two distributions are what they are called (real generators, every listed seed)."""
    what = ctx.choose("estimator", EST, free=True)
    seed = ctx.choose("seed", list(range(12)), free=True)
    n = ctx.choose("n", [1, 5, 40], free=True)
    est = cls(what)(aslinearoperator(np.eye(n)))
    np.random.seed(seed)
    x = est.sample("rademacher")
    ctx.check(np.allclose(x, exact(what, np.eye(n)), atol=1e-12), "signs square to one")
    np.random.seed(seed)
    d = est.sample()
    ctx.check(np.array_equal(x, d), "the default distribution is Rademacher")
    g = est.sample("normal")
    ctx.check(not np.allclose(g, exact(what, np.eye(n)), atol=1e-9), "normal samples have random length")
    np.random.seed(seed)
    ctx.check(np.array_equal(est.sample("rademacher"), x), "samples are reproducible by seeding NumPy")


def invalid(ctx):
    what = ctx.choose("estimator", EST, free=True)
    bad = ctx.choose("input", ["tall", "wide", "distribution"], free=True)
    name = ctx.choose("name", ["uniform", "Rademacher", "gaussian", ""], free=True)
    A = np.ones({"tall": (3, 2), "wide": (2, 3), "distribution": (2, 2)}[bad])
    try:
        est = cls(what)(aslinearoperator(A))
    except ValueError:
        ctx.check(bad != "distribution" and what != "frob", "rejected a valid operator")
        return
    ctx.check(bad == "distribution" or what == "frob", "accepted an operator that is not square")
    if bad == "distribution":
        try:
            est.sample(name)
        except ValueError:
            return
        ctx.fail(f"accepted distribution {name!r}")


def curvature(ctx):
    """Estimates of exported curvature matrices are unbiased."""
    from checks.ops import make_op, reference

    kind = ctx.choose("kind", ["GGN", "H", "EF", "KFAC", "KINV", "J", "JT"], free=True)
    what = ctx.choose("estimator", EST, free=True)
    dist = ctx.choose("distribution", ["rademacher", "normal"], free=True)
    if kind in ("J", "JT") and what != "frob":
        ctx.skip()
    P = Problem("func" if kind not in ("KFAC", "KINV") else "linear", "mse", "mean", N=2, C=1, sizes=[1, 1])
    ref = reference(kind, P).numpy()
    est = cls(what)(make_op(kind, P).to_scipy())

    def body(draw):
        with rng.NumpyDraws(draw):
            return est.sample(dist)

    out = engine.Enumerator(ctx).run(body)
    mean = sum(w * np.asarray(x, dtype=float) for w, x, _ in out)
    want = exact(what, ref)
    ctx.check(np.abs(mean - want).max() <= 1e-7 * (1 + np.abs(want).max()), f"expectation {mean}, exact {want}")


def large(ctx):
    """Dimensions of real problems: every entry of the random vector takes part."""
    what = ctx.choose("estimator", EST, free=True)
    n = ctx.choose("n", [70, 130, 300], free=True)
    dist = ctx.choose("distribution", ["rademacher", "normal"], free=True)
    flip = ctx.choose("flipped entry", [0, 1, 15, 31, 32, 33, 63, 64, 65, 68, 69, 99, 100, 127, 128, 129, 255, 256, 299], free=True)
    if flip >= n:
        ctx.skip()
    A = zoo.rand(n, n, seed=6).numpy()

    def sample(at):
        i = [0]

        def draw(probs):
            i[0] += 1
            return int(i[0] - 1 == at)

        with rng.NumpyDraws(draw):
            return cls(what)(aslinearoperator(A)).sample(dist)

    got, ones = sample(flip), np.ones(n)
    v = ones.copy()
    v[flip] = -1.0
    ok = any(np.allclose(got, value(what, A, s * v), rtol=1e-9, atol=1e-9) for s in (1.0, -1.0))
    ctx.check(ok, f"entry {flip} of {n} does not influence the estimate as it should")
    ok = np.allclose(sample(-1), value(what, A, ones), rtol=1e-9, atol=1e-9)
    ctx.check(ok, "equal signs: wrong estimate")


ASSUMPTIONS = ["normal draws are replaced by the two-point law with the same first two moments (all estimators are "
               "quadratic in the draw)", "all sign vectors of dimension up to 5"]


def scenarios(tier):
    return [
        ("laws", laws, 1 if tier == "quick" else None, "estimator x distribution x matrix x every sign vector"),
        ("independence", independence, None, "joint law of two successive samples"),
        ("distributions", distributions, None, "real generators"),
        ("invalid", invalid, None, "invalid operators and distributions"),
        ("curvature", curvature, None, "curvature exports x every sign vector"),
        ("large", large, None, "up to 300 dimensions: the effect of single entries of the random vector"),
    ]
