"""C23: Lanczos quadrature, spectral boundaries and densities against their definition."""

import numpy as np
from scipy.sparse.linalg import LinearOperator, aslinearoperator

from checks.c18 import Op
from checks.common import *
from mc import rng, zoo


def sym(n, seed=0):
    B = zoo.rand(n, n, seed=40 + seed).numpy()
    return B + B.T


def with_spectrum(evals, seed=0):
    n = len(evals)
    Q, _ = np.linalg.qr(zoo.rand(n, n, seed=60 + seed).numpy() + 2 * np.eye(n))
    A = Q @ np.diag(np.array(evals, dtype=float)) @ Q.T
    return (A + A.T) / 2


MATRICES = {
    "generic 4": lambda: sym(4),
    "generic 2": lambda: sym(2, 1),
    "generic 3": lambda: sym(3, 2),
    "generic 6": lambda: sym(6, 3),
    "positive": lambda: with_spectrum([0.5, 1.0, 2.0, 4.0, 9.0]),
    "negative": lambda: with_spectrum([-7.0, -3.0, -2.5, -1.0]),
    "large": lambda: 1e4 * sym(4, 4),
    "small": lambda: 1e-4 * sym(4, 5),
    "integer": lambda: np.array([[2.0, 1, 0], [1, -1, 3], [0, 3, 1]]),
    "bulk and outlier": lambda: with_spectrum([0.0, 0.1, 0.2, 0.3, 10.0]),
}
# invariant subspaces are met before ncv steps
DEGENERATE = {
    "zero": lambda: np.zeros((3, 3)),
    "multiple of identity": lambda: 2.0 * np.eye(3),
    "identity": lambda: np.eye(2),
    "1 x 1": lambda: np.array([[3.0]]),
    "rank one": lambda: np.outer([1.0, 2.0, 2.0], [1.0, 2.0, 2.0]),
    "two eigenvalues": lambda: np.diag([1.0, 1.0, -2.0, -2.0]),
    "diagonal": lambda: np.diag([1.0, 2.0, 3.0]),
    "permutation": lambda: np.array([[0.0, 1.0], [1.0, 0.0]]),
}


def start(n, k=0):
    """A generic start vector (overlaps with every eigenvector)."""
    return zoo.rand(n, seed=200 + k).numpy() + 0.3


def special(n):
    e = np.zeros(n)
    e[0] = 1.0
    return {"ones": np.ones(n), "unit": e, "scaled": 1e3 * start(n), "tiny": 1e-3 * start(n, 1),
            "signs": np.where(np.arange(n) % 2, -1.0, 1.0)}


def lanczos(A, v, ncv):
    """Nodes and weights of the Gauss quadrature: Lanczos with full reorthogonalisation."""
    Q = [v / np.linalg.norm(v)]
    al, be = [], []
    for m in range(ncv):
        w = A @ Q[-1]
        al.append(w @ Q[-1])
        for _ in range(3):
            for q in Q:
                w = w - (q @ w) * q
        if m < ncv - 1:
            b = np.linalg.norm(w)
            be.append(b)
            Q.append(w / b)
    T = np.diag(al) + np.diag(be, 1) + np.diag(be, -1)
    lam, U = np.linalg.eigh(T)
    return lam, U[0] ** 2


def gauss(x, mu, s):
    return np.exp(-0.5 * ((x - mu) / s) ** 2) / (s * np.sqrt(2 * np.pi))


def density(runs, bounds, num_points=1024, kappa=3.0, margin=0.05, **_):
    lo, hi = bounds
    pad = margin * (hi - lo)
    lo, hi = lo - pad, hi + pad
    c, d = (lo + hi) / 2, (hi - lo) / 2
    x = np.linspace(-1, 1, num_points)
    rho = np.zeros(num_points)
    for lam, w in runs:
        s = 2 / ((len(lam) - 1) * np.sqrt(8 * np.log(kappa)))
        for a, b in zip(lam, w):
            rho += b / d * gauss(x, (a - c) / d, s)
    return np.linspace(lo, hi, num_points), rho / len(runs)


def log_density(runs, bounds, num_points=1024, kappa=1.04, margin=0.05, epsilon=1e-5, **_):
    lo, hi = (np.log(b + epsilon) for b in bounds)
    pad = margin * (hi - lo)
    lo, hi = lo - pad, hi + pad
    c, d = (lo + hi) / 2, (hi - lo) / 2
    x = np.linspace(-1, 1, num_points)
    out = np.exp(d * x + c)
    rho = np.zeros(num_points)
    for lam, w in runs:
        s = 2 / ((len(lam) - 1) * np.sqrt(8 * np.log(kappa)))
        for a, b in zip(lam, w):
            rho += b * gauss(x, (np.log(abs(a) + epsilon) - c) / d, s) / (d * out)
    return out, rho / len(runs)


class Float32Op(LinearOperator):
    def __init__(self, A):
        super().__init__(np.dtype("float32"), A.shape)
        self.A = A.astype("float32")

    def _matvec(self, x):
        return self.A @ x.astype("float32").reshape(-1)


class Copyless(LinearOperator):
    """Returns its operand where possible (like SciPy's identity)."""

    def __init__(self, A):
        super().__init__(A.dtype, A.shape)
        self.A = A
        self.same = np.array_equal(A, np.eye(len(A)))

    def _matvec(self, x):
        return x if self.same else self.A @ x


WRAP = {"matrix": aslinearoperator, "user": Op, "returns its operand": Copyless, "single precision": Float32Op}


def moments(ctx):
    from curvlinops.papyan2020traces.spectrum import fast_lanczos

    name = ctx.choose("matrix", list(MATRICES) + list(DEGENERATE), free=True)
    A = {**MATRICES, **DEGENERATE}[name]()
    n = len(A)
    ncv = ctx.choose("ncv", [2, 3, 4, 5, 6, 8, 1], free=True)
    vs = {"generic": start(n), "other": start(n, 7), **special(n)}
    v = vs[ctx.choose("start vector", list(vs), free=True)]
    wrap = ctx.choose("operator", list(WRAP))
    tri = ctx.choose("use_eigh_tridiagonal", [False, True], free=True)
    flag = ctx.choose("passed", ["positional", "keyword"])
    A0 = A.copy()
    op = WRAP[wrap](A)
    with rng.ScriptedNormals([v, v, v]) as ctl:
        lam, U = (fast_lanczos(op, ncv, tri) if flag == "positional"
                  else fast_lanczos(A=op, ncv=ncv, use_eigh_tridiagonal=tri))
    ctx.check(ctl.served == 1 or name in DEGENERATE or ncv > n, f"{ctl.served} start vectors were drawn")
    ctx.check(np.array_equal(A, A0), "the matrix changed")
    ctx.check(lam.shape == (ncv,) and U.shape == (ncv, ncv), f"shapes {lam.shape}, {U.shape}")
    tol = 2e-4 if wrap == "single precision" else 1e-8
    ctx.check(np.allclose(np.asarray(U).T @ U, np.eye(ncv), atol=1e-7), "eigenvectors are not orthonormal")
    u = v / np.linalg.norm(v)
    scale = np.abs(np.linalg.eigvalsh(A)).max()
    x = u
    for k in range(2 * ncv):
        want = u @ x
        have = float(np.sum(np.asarray(U)[0] ** 2 * lam**k))
        ctx.check(abs(have - want) <= tol * (k + 1) * max(scale, 1e-300) ** k,
                  f"moment {k}: {have}, expected {want}")
        x = A @ x
    if ncv <= n and name in MATRICES:
        ref, w = lanczos(A, v, ncv) if np.linalg.matrix_rank(
            np.stack([np.linalg.matrix_power(A / max(scale, 1e-300), k) @ u for k in range(ncv)]), tol=1e-5) == ncv else (None, None)
        if ref is not None and wrap != "single precision":
            o = np.argsort(lam)
            ctx.check(np.allclose(lam[o], ref, atol=1e-6 * scale), f"nodes {lam}, expected {ref}")
            ctx.check(np.allclose(np.asarray(U)[0, o] ** 2, w, atol=1e-6), "weights")


def close(ctx, got, want, what, tol=1e-6):
    for g, w, part in zip(got, want, ("grid", "density")):
        ctx.check(g.shape == w.shape, f"{what}: {part} has shape {g.shape}, expected {w.shape}")
        err = np.abs(g - w).max()
        ctx.check(err <= tol * np.abs(w).max() + 1e-300, f"{what}: {part} is off by {err} of {np.abs(w).max()}")


HYPER = {
    "base": dict(num_points=33, kappa=3.0, margin=0.05),
    "default": {},
    "narrow": dict(num_points=64, kappa=50.0),
    "wide": dict(num_points=17, kappa=1.04),
    "no margin": dict(num_points=33, margin=0.0),
    "margin": dict(num_points=20, kappa=2.0, margin=0.5),
    "two points": dict(num_points=2),
}
BOUNDS = ["both", "none", "lower", "upper", "loose", "tight"]


def choose_bounds(ctx, ev, n):
    """Returns (argument, boundaries that are to be used)."""
    how = ctx.choose("boundaries", BOUNDS)
    lo, hi = float(ev.min()), float(ev.max())
    w = hi - lo
    if how == "none" and n < 3 or how in ("lower", "upper") and n < 2:
        ctx.skip()
    return {"both": ((lo, hi), (lo, hi)), "none": (None, (lo, hi)), "lower": ((lo - 0.2 * w, None), (lo - 0.2 * w, hi)),
            "upper": ((None, hi + 0.3 * w), (lo, hi + 0.3 * w)),
            "loose": ((lo - w, hi + 0.5 * w),) * 2,
            "tight": ((lo + 0.1 * w, hi - 0.1 * w),) * 2}[how]


def spectrum(ctx):
    import curvlinops as c

    log = ctx.choose("function", ["plain", "log"], free=True) == "log"
    A = MATRICES[ctx.choose("matrix", list(MATRICES), free=True)]()
    n = len(A)
    ncv = ctx.choose("ncv", [2, 3, 4], free=True)
    reps = ctx.choose("num_repeats", [1, 2, 3], free=True)
    if ncv > n:
        ctx.skip()
    hyper = dict(HYPER[ctx.choose("hyper-parameters", list(HYPER))])
    if log and ctx.choose("epsilon", ["default", "given"]) == "given":
        hyper["epsilon"] = 0.01
    ev = np.linalg.eigvalsh(A)
    arg, used = choose_bounds(ctx, np.abs(ev) if log else ev, n)
    if log and min(used) < 1e-9 * max(used):
        if arg is None or None in arg:
            ctx.skip()  # an eigenvalue that is zero up to round-off
        arg = used = (1e-4 * max(used), max(used))
    wrap = ctx.choose("operator", ["matrix", "user"])
    vs = [start(n, k) for k in range(reps)]
    if reps > 1 or "num_repeats" in hyper:
        hyper["num_repeats"] = reps
    kw = dict(hyper)
    if arg is not None or ctx.choose("boundaries=None", ["omitted", "given"]) == "given":
        kw["boundaries"] = arg
    if arg is None or None in arg:
        kw["boundaries_tol"] = 0.0
    f = c.lanczos_approximate_log_spectrum if log else c.lanczos_approximate_spectrum
    with rng.ScriptedNormals(vs) as ctl:
        got = f(WRAP[wrap](A), ncv, **kw)
    ctx.check(ctl.served == reps, f"{ctl.served} start vectors for {reps} repeats")
    runs = [lanczos(A, v, ncv) for v in vs]
    close(ctx, got, (log_density if log else density)(runs, used, **hyper), "density", 1e-5)


def boundaries(ctx):
    from curvlinops.papyan2020traces.spectrum import approximate_boundaries, approximate_boundaries_abs

    absolute = ctx.choose("function", ["plain", "abs"], free=True) == "abs"
    name = ctx.choose("matrix", list(MATRICES) + ["two eigenvalues", "diagonal", "rank one"], free=True)
    A = {**MATRICES, **DEGENERATE}[name]()
    n = len(A)
    ev = np.linalg.eigvalsh(A)
    ev = np.abs(ev) if absolute else ev
    lo, hi = float(ev.min()), float(ev.max())
    how = ctx.choose("given", ["none", "lower", "upper", "both", "two Nones", "zero lower", "zero upper"], free=True)
    arg = {"none": None, "lower": (lo - 1.5, None), "upper": (None, hi + 2.5), "both": (lo - 1.5, hi + 2.5),
           "two Nones": (None, None), "zero lower": (0.0, None), "zero upper": (None, 0.0)}[how]
    tol = ctx.choose("tol", [0.0, "default"], free=True)
    if n < 3:
        ctx.skip()
    if absolute and arg is not None and any(a is not None and a < 0 for a in arg):
        arg = tuple(None if a is None else abs(a) for a in arg)
    want = [lo, hi]
    if arg is not None:
        want = [w if a is None else a for w, a in zip(want, arg)]
    wrap = ctx.choose("operator", ["matrix", "user"], free=True)
    kw = {} if tol == "default" else {"tol": tol}
    if arg is not None:
        kw["boundaries"] = arg
    got = (approximate_boundaries_abs if absolute else approximate_boundaries)(WRAP[wrap](A), **kw)
    ctx.check(len(got) == 2, "two boundaries")
    scale = np.abs(np.linalg.eigvalsh(A)).max()
    for g, w, a in zip(got, want, arg or (None, None)):
        # without tolerance the estimates are exact; ARPACK spans the whole space here in either case
        ctx.check(abs(g - w) <= (1e-6 if tol == 0.0 else 2e-2) * max(scale, abs(w)), f"boundaries {got}, expected {want}")
        ctx.check(a is None or g == a, f"given boundary {a} was replaced by {g}")


LARGE = {"positive": np.linspace(1, 2, 120), "clusters": np.concatenate([np.linspace(1, 2, 60), np.linspace(-3, -2.8, 60)]),
         "negative": -np.linspace(1, 2, 120) ** 2}


def accuracy(ctx):
    """The requested accuracy of the boundaries (matrices too large for the eigensolver's first subspace)."""
    import curvlinops as c
    from curvlinops.papyan2020traces.spectrum import approximate_boundaries, approximate_boundaries_abs

    what = ctx.choose("function", ["boundaries", "spectrum", "cached spectrum", "boundaries of the absolute", "log spectrum",
                                   "cached log spectrum"], free=True)
    absolute = what in ("boundaries of the absolute", "log spectrum", "cached log spectrum")
    ev = LARGE[ctx.choose("matrix", list(LARGE), free=True)]
    n = len(ev)
    Q = np.linalg.qr(np.random.RandomState(3).standard_normal((n, n)))[0]
    A = aslinearoperator((Q * ev) @ Q.T)
    tol = ctx.choose("tol", [0.0, 1e-10, "default"], free=True)
    ev = np.abs(ev) if absolute else ev
    lo, hi = float(ev.min()), float(ev.max())
    given = ctx.choose("given", ["none", "lower", "upper"], free=True)
    arg, want = {"none": (None, (lo, hi)), "lower": ((0.9 * lo if lo > 0 else 1.1 * lo, None), None),
                 "upper": ((None, hi + 0.5), None)}[given]
    want = want or tuple(w if a is None else a for a, w in zip(arg, (lo, hi)))
    if what.startswith("boundaries"):
        kw = {} if tol == "default" else {"tol": tol}
        got = (approximate_boundaries_abs if absolute else approximate_boundaries)(A, boundaries=arg, **kw)
    else:
        kw = {} if tol == "default" else {"boundaries_tol": tol}
        if what.startswith("cached"):
            cls = c.LanczosApproximateLogSpectrumCached if absolute else c.LanczosApproximateSpectrumCached
            est = cls(A, 4, boundaries=arg, **kw)
            grid = (est.approximate_log_spectrum if absolute else est.approximate_spectrum)(num_points=5)[0]
        else:
            f = c.lanczos_approximate_log_spectrum if absolute else c.lanczos_approximate_spectrum
            grid = f(A, 4, num_points=5, boundaries=arg, **kw)[0]
        grid = np.log(grid) if absolute else grid
        pad = 0.05 * (grid[-1] - grid[0]) / 1.1
        got = [grid[0] + pad, grid[-1] - pad]
        got = [np.exp(g) - 1e-5 for g in got] if absolute else got
    limit = 3e-2 if tol == "default" else 1e-7
    for g, w in zip(got, want):
        ctx.check(abs(g - w) <= limit * np.abs(ev).max(), f"boundaries {tuple(got)}, expected {want}")


def curvature(ctx):
    from checks.ops import make_op, reference
    from curvlinops import lanczos_approximate_spectrum
    from curvlinops.papyan2020traces.spectrum import fast_lanczos

    kind = ctx.choose("kind", ["GGN", "H", "EF", "KFAC", "KINV"], free=True)
    loss = ctx.choose("loss", ["mse", "ce"], free=True)
    reps = ctx.choose("num_repeats", [1, 2], free=True)
    Pr = Problem("mlp" if kind != "KINV" else "linear", loss, "mean", N=3, C=2, sizes=[2, 1])
    A = reference(kind, Pr).numpy()
    op = make_op(kind, Pr).to_scipy()
    n = len(A)
    v = start(n)
    with rng.ScriptedNormals([v]):
        lam, U = fast_lanczos(op, 3)
    u, scale = v / np.linalg.norm(v), np.abs(np.linalg.eigvalsh(A)).max()
    x = u
    for k in range(6):
        ctx.check(abs(np.sum(U[0] ** 2 * lam**k) - u @ x) <= 1e-6 * scale**k, f"moment {k}")
        x = A @ x
    vs = [start(n, k) for k in range(reps)]
    ev = np.linalg.eigvalsh(A)
    with rng.ScriptedNormals(vs):
        got = lanczos_approximate_spectrum(op, 3, 50, reps, boundaries=(ev.min(), ev.max()))
    close(ctx, got, density([lanczos(A, w, 3) for w in vs], (ev.min(), ev.max()), 50), "density", 1e-5)


def large(ctx):
    """Many iterations, repeats and points."""
    import curvlinops as c

    log = ctx.choose("function", ["plain", "log"], free=True) == "log"
    n = ctx.choose("n", [80, 200], free=True)
    ncv = ctx.choose("ncv", [12, 60], free=True)
    reps = ctx.choose("num_repeats", [1, 12, 40], free=True)
    points = ctx.choose("num_points", [2, 50, 1500, 5000], free=True)
    via = ctx.choose("via", ["function", "cached"], free=True)
    ev = np.concatenate([np.linspace(0.5, 1, n - 4), [2.0, 3.0, 5.0, 9.0]])
    A = with_spectrum(ev, seed=1)
    vs = [zoo.rand(n, 1, seed=50 + k).numpy()[:, 0] for k in range(reps)]
    kw = dict(num_points=points, margin=0.1, kappa=2.0)
    b = (float(ev.min()), float(ev.max()))
    with rng.ScriptedNormals(vs):
        if via == "function":
            f = c.lanczos_approximate_log_spectrum if log else c.lanczos_approximate_spectrum
            got = f(aslinearoperator(A), ncv, num_repeats=reps, boundaries=b, **kw)
        else:
            est = (c.LanczosApproximateLogSpectrumCached if log else c.LanczosApproximateSpectrumCached)(
                aslinearoperator(A), ncv, boundaries=b)
            got = (est.approximate_log_spectrum if log else est.approximate_spectrum)(num_repeats=reps, **kw)
    runs = [lanczos(A, v, ncv) for v in vs]
    close(ctx, got, (log_density if log else density)(runs, b, **kw), "density", 1e-5)


ASSUMPTIONS = ["start vectors are injected where NumPy's normal numbers are drawn",
               "moments relative to the spectral radius to 1e-8; densities to 1e-5 of their maximum"]


def scenarios(tier):
    q = tier == "quick"
    return [
        ("moments", moments, 1 if q else 2, "matrices (with invariant subspaces) x ncv x start vectors x options"),
        ("spectrum", spectrum, 1 if q else 3, "matrix x ncv x repeats; deviations over hyper-parameters, boundaries"),
        ("boundaries", boundaries, None, "matrix x given boundaries x tolerance"),
        ("accuracy", accuracy, None, "estimated boundaries of larger matrices x requested accuracy, through every function"),
        ("curvature", curvature, None, "curvature exports"),
        ("large", large, None, "up to 200 dimensions, 35 iterations, 40 repeats, 5000 points, also cached"),
    ]
