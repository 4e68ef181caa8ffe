"""C19: iterative inverses (CG, LSMR) solve the linear system they stand for."""

from itertools import product

import numpy as np
import scipy.sparse.linalg as spla
from scipy.sparse.linalg import LinearOperator, aslinearoperator

from checks.c18 import Op, compare
from checks.common import *
from mc import zoo


def small_matrices(n, values=(-1, 0, 1)):
    return [np.array(v, dtype=float).reshape(n, n) for v in product(values, repeat=n * n)]


def rhs(n, values=(-1.0, 0.0, 2.0)):
    return [np.array(v) for v in product(values, repeat=n)]


CG = {"default": {}, "tight": dict(tol=1e-12), "loose": dict(tol=0.5), "x0": dict(x0=np.array([0.3, -2.0])),
      "exact x0": "exact", "M": dict(M=np.diag([0.5, 0.25])), "atol": dict(atol=0.7, tol=1e-12),
      "maxiter 1": dict(maxiter=1, tol=1e-12), "callback": "callback"}


def cg_cases(ctx):
    """Every small SPD system under every kind of hyper-parameter."""
    from curvlinops import CGInverseLinearOperator

    B = ctx.choose("B", small_matrices(2), free=True)
    b = ctx.choose("b", rhs(2), free=True)
    A = B @ B.T + 0.5 * np.eye(2)
    how = ctx.choose("hyper-parameters", list(CG))
    fmt = ctx.choose("format", ["vec", "column", "mat", "int", "float32 operator", "user operator"])
    dt = np.float32 if fmt == "float32 operator" else float
    b = b * ctx.choose("scale of b", [1.0, 1e-7, 1e-13, 1e5, 1e12])
    if fmt == "int" and np.any(b != np.round(b)):
        ctx.skip()
    base = Op(A.astype(dt)) if fmt == "user operator" else aslinearoperator(A.astype(dt))
    inv = CGInverseLinearOperator(base)
    ctx.check(tuple(inv.shape) == (2, 2) and inv.dtype == base.dtype, "shape or dtype of the inverse")
    calls, kw = [], CG[how]
    if kw == "exact":
        kw = dict(x0=np.linalg.solve(A, b))
    elif kw == "callback":
        kw = dict(callback=lambda xk: calls.append(xk.copy()))
    keep = kw["x0"].copy() if "x0" in kw else None
    if kw:
        inv.set_cg_hyperparameters(**kw)
    b2 = b * np.array([2.0, -1.0]) + 1
    b0 = b.copy()
    if fmt == "mat":
        X = np.column_stack([b, b2])
        got = inv @ X
        ctx.check(got.shape == (2, 2), f"shape {got.shape}")
        sols = [(got[:, 0], b), (got[:, 1], b2)]
    elif fmt == "column":
        got = inv @ b.reshape(-1, 1)
        ctx.check(got.shape == (2, 1), f"shape {got.shape}")
        sols = [(got[:, 0], b)]
    else:
        got = inv @ (b.astype(int) if fmt == "int" else b)
        ctx.check(got.shape == (2,), f"shape {got.shape}")
        sols = [(got, b)]
    ctx.check(np.array_equal(b, b0), "the right-hand side was modified")
    if keep is not None:
        ctx.check(np.array_equal(kw["x0"], keep), "x0 was modified")
    tol = kw.get("tol", 1e-5)
    atol = kw.get("atol") or 0.0
    for x, r in sols:
        res = np.linalg.norm(A @ x - r)
        limit = max(tol * np.linalg.norm(r), atol) * 1.01 + (2e-5 if dt is np.float32 else 1e-10) * np.linalg.norm(r)
        if how != "maxiter 1":
            ctx.check(res <= limit, f"residual {res:.2e} exceeds {limit:.2e}")
        elif np.linalg.norm(r) > 0:
            # one step of CG from zero: steepest descent
            step = (r @ r) / (r @ A @ r) * r
            ctx.check(np.abs(x - step).max() <= 1e-8 * (1 + np.abs(step).max()), "maxiter=1 is not one CG step")
        if how == "exact x0" and np.linalg.norm(r - b) == 0:
            ctx.check(np.abs(x - kw["x0"]).max() <= 1e-7 * (1 + np.abs(x).max()), "the exact starting point was left")
    if how == "callback" and np.any(b):
        ctx.check(len(calls) >= 1, "the callback was not called")


LSMR = {"default": {}, "tight": dict(atol=1e-14, btol=1e-14), "damp": dict(damp=0.7, atol=1e-13, btol=1e-13),
        "x0": dict(x0=np.array([0.5, -1.0]), atol=1e-13, btol=1e-13), "maxiter": dict(maxiter=50, atol=1e-13, btol=1e-13),
        "conlim": dict(conlim=1e12, atol=1e-13, btol=1e-13)}


def lsmr_cases(ctx):
    """Every small square system, singular ones included (minimum-norm least squares)."""
    from curvlinops import LSMRInverseLinearOperator

    A = ctx.choose("A", small_matrices(2, (-1, 0, 2)), free=True)
    b = ctx.choose("b", rhs(2), free=True)
    how = ctx.choose("hyper-parameters", list(LSMR))
    fmt = ctx.choose("format", ["vec", "column", "mat", "int", "info", "user operator"])
    inv = LSMRInverseLinearOperator(Op(A) if fmt == "user operator" else aslinearoperator(A))
    kw = LSMR[how]
    if kw:
        inv.set_lsmr_hyperparameters(**kw)
    damp = kw.get("damp", 0.0)
    if damp:
        want = lambda r: np.linalg.solve(A.T @ A + damp**2 * np.eye(2), A.T @ r)
    elif "x0" in kw:  # the solution closest to the starting point
        if not np.any(b):  # (SciPy may return zero or stay at x0 in the null space)
            ctx.skip()
        want = lambda r: kw["x0"] + np.linalg.pinv(A) @ (r - A @ kw["x0"])
    else:
        want = lambda r: np.linalg.pinv(A) @ r
    b2 = b * np.array([-1.0, 3.0]) + 0.5
    b0 = b.copy()
    tol = 1e-4 if how == "default" else 1e-7
    if fmt == "mat":
        got, ref = inv @ np.column_stack([b, b2]), np.column_stack([want(b), want(b2)])
    elif fmt == "column":
        got, ref = inv @ b.reshape(-1, 1), want(b).reshape(-1, 1)
    elif fmt == "info":
        info = inv.matvec_with_info(b)
        ctx.check(len(info) == 8, "matvec_with_info must return the solution and 7 diagnostics")
        got, ref = info[0], want(b)
        if not damp and "x0" not in kw:
            ctx.check(abs(info[3] - np.linalg.norm(b - A @ got)) <= 1e-4 * (1 + np.linalg.norm(b)), "residual norm")
            ctx.check(abs(info[7] - np.linalg.norm(got)) <= 1e-4 * (1 + np.linalg.norm(b)), "norm of the solution")
    else:
        got, ref = inv @ (b.astype(int) if fmt == "int" else b), want(b)
    ctx.check(got.shape == ref.shape, f"shape {got.shape}, expected {ref.shape}")
    err = np.abs(got - ref).max()
    ctx.check(err <= tol * (1 + np.abs(ref).max()), f"error {err:.2e}: {got} vs {ref}")
    ctx.check(np.array_equal(b, b0), "the right-hand side was modified")


def conditioning(ctx):
    """Badly scaled regular systems are solved up to SciPy's limit of the condition number."""
    from curvlinops import CGInverseLinearOperator, LSMRInverseLinearOperator

    cond = ctx.choose("condition", [1.0, 1e1, 1e2, 1e3, 1e4], free=True)
    n = ctx.choose("n", [2, 3, 4], free=True)
    seed = ctx.choose("basis", [1, 2, 3], free=True)
    what = ctx.choose("solver", ["cg", "lsmr"], free=True)
    Q, _ = np.linalg.qr(zoo.rand(n, n, seed=seed).numpy())
    A = Q @ np.diag(np.geomspace(1, 1 / cond, n)) @ Q.T
    b = zoo.rand(n, seed=9 + seed).numpy()
    cls = CGInverseLinearOperator if what == "cg" else LSMRInverseLinearOperator
    inv = cls(aslinearoperator(A))
    if what == "cg":
        inv.set_cg_hyperparameters(tol=1e-12, maxiter=500)
    else:
        inv.set_lsmr_hyperparameters(atol=1e-15, btol=1e-15, maxiter=2000)
    x = inv @ b
    err = np.abs(x - np.linalg.solve(A, b)).max() / np.abs(x).max()
    ctx.check(err <= 1e-5, f"relative error {err:.1e}")


def slow(ctx):
    """Systems on which CG needs many more iterations than the dimension."""
    from curvlinops import CGInverseLinearOperator, LSMRInverseLinearOperator

    what = ctx.choose("solver", ["cg", "lsmr"], free=True)
    n = ctx.choose("n", [12, 8], free=True)
    seed = ctx.choose("basis", [1, 2, 3], free=True)
    span = ctx.choose("decades", [6, 8, 10], free=True)
    scale = ctx.choose("scale", [1.0, 1e-6, 1e6], free=True)
    how = ctx.choose("hyper-parameters", ["default", "set", "only x0", "only tol"], free=True)
    fmt = ctx.choose("format", ["vec", "mat"], free=True)
    if what == "lsmr" and (span > 6 or how == "only tol"):
        ctx.skip()
    Q, _ = np.linalg.qr(zoo.rand(n, n, seed=seed).numpy())
    A = Q @ np.diag(scale * np.geomspace(1, 10.0**span, n)) @ Q.T
    A = (A + A.T) / 2
    b = zoo.rand(n, 2, seed=9 + seed).numpy()
    inv = (CGInverseLinearOperator if what == "cg" else LSMRInverseLinearOperator)(aslinearoperator(A))
    if what == "cg":
        tol = {"default": 1e-5, "set": 1e-7, "only x0": 1e-5, "only tol": 1e-7}[how]
        kw = {"default": None, "set": dict(tol=tol, atol=0.0), "only x0": dict(x0=np.ones(n) / scale), "only tol": dict(tol=tol)}[how]
        if kw is not None:
            inv.set_cg_hyperparameters(**kw)
    else:
        tol = 1e-3
        inv.set_lsmr_hyperparameters(**({} if how == "default" else dict(atol=1e-12, btol=1e-12, maxiter=5000)))
    x = inv @ b if fmt == "mat" else (inv @ b[:, 0]).reshape(-1, 1)
    for j in range(x.shape[1]):
        r = np.linalg.norm(A @ x[:, j] - b[:, j]) / np.linalg.norm(b[:, j])
        if what == "cg":
            # reference: SciPy's solver with the same tolerance and its own number of iterations
            y, info = spla.cg(aslinearoperator(A), b[:, j], rtol=tol, atol=0.0, x0=None if how != "only x0" else np.ones(n) / scale)
            s = np.linalg.norm(A @ y - b[:, j]) / np.linalg.norm(b[:, j])
            ctx.check(r <= max(2 * s, tol * 1.01), f"residual {r:.1e}, attainable {s:.1e}")
        elif how == "set":
            ctx.check(r <= tol, f"residual {r:.1e}")


EVENTS = ["tight", "loose", "reset", "maxiter", "x0", "vec", "mat", "twice"]


def histories(ctx):
    """Hyper-parameters hold until they are set again, and never mix."""
    from curvlinops import CGInverseLinearOperator, LSMRInverseLinearOperator

    what = ctx.choose("solver", ["cg", "lsmr"], free=True)
    n = 9
    B = zoo.rand(n, n, seed=4).numpy()
    A = np.eye(n) + 0.5 * B @ B.T / np.linalg.norm(B @ B.T, 2)
    cls = CGInverseLinearOperator if what == "cg" else LSMRInverseLinearOperator
    inv = cls(aslinearoperator(A))
    other = cls(aslinearoperator(2 * A))
    b = zoo.rand(n, 3, seed=8).numpy()
    x0 = np.linalg.solve(A, b[:, 0])
    state = "default"
    depth = 3 if ctx.tier == "quick" else 4

    def judge(x, r):
        res = np.linalg.norm(A @ x - r) / np.linalg.norm(r)
        if state == "tight":
            ctx.check(res <= 1e-8, f"{what}, {state}: residual {res:.1e}")
        elif state in ("default", "x0"):
            ctx.check(res <= 2e-4, f"{what}, {state}: residual {res:.1e}")
        elif state in ("loose", "maxiter"):
            # (must really be loose: the tight setting does not survive)
            ctx.check(res >= 1e-6, f"{what}, {state}: residual {res:.1e}, a former setting is still active")

    for k in range(depth):
        ev = ctx.choose(f"event{k}", EVENTS, free=True)
        set_ = inv.set_cg_hyperparameters if what == "cg" else inv.set_lsmr_hyperparameters
        if ev == "tight":
            set_(tol=1e-12) if what == "cg" else set_(atol=1e-14, btol=1e-14, maxiter=200)
            state = ev
        elif ev == "loose":
            set_(tol=0.3) if what == "cg" else set_(atol=0.3, btol=0.3)
            state = ev
        elif ev == "maxiter":
            set_(maxiter=1)
            state = ev
        elif ev == "x0":
            set_(x0=x0)
            state = ev
        elif ev == "reset":
            set_()
            state = "default"
        elif ev == "vec":
            judge(inv @ b[:, 0], b[:, 0])
        elif ev == "twice":
            x1, x2 = inv @ b[:, 1], inv @ b[:, 1]
            ctx.check(np.array_equal(x1, x2), "two products differ")
            judge(x1, b[:, 1])
        else:
            X = inv @ b
            for j in range(3):
                ctx.check(np.allclose(X[:, j], inv @ b[:, j], rtol=1e-9, atol=1e-12), "columns are not independent")
                judge(X[:, j], b[:, j])
    judge(inv @ b[:, 2], b[:, 2])
    res = np.linalg.norm(2 * A @ (other @ b[:, 0]) - b[:, 0])
    ctx.check(res <= 2e-4, "another inverse was affected")


def curvature(ctx):
    """Inverses of damped curvature matrices."""
    from curvlinops import CGInverseLinearOperator, LSMRInverseLinearOperator

    from checks.ops import make_op, reference

    kind = ctx.choose("kind", ["GGN", "EF", "KFAC", "H", "H-blocks"], free=True)
    loss = ctx.choose("loss", LOSSES, free=True)
    damping = ctx.choose("damping", [0.1, 1.0], free=True)
    what = ctx.choose("solver", ["lsmr", "cg"], free=True)
    if kind.startswith("H") and what == "cg":
        ctx.skip()
    P = Problem("linear", loss, "mean", N=3, C=2, sizes=[2, 1])
    ref = reference(kind, P).numpy() + damping * np.eye(P.D)
    A = make_op(kind, P).to_scipy() + damping * aslinearoperator(np.eye(P.D))
    if what == "cg":
        inv = CGInverseLinearOperator(A)
        inv.set_cg_hyperparameters(tol=1e-12)
    else:
        inv = LSMRInverseLinearOperator(A)
        inv.set_lsmr_hyperparameters(atol=1e-14, btol=1e-14, maxiter=500)
    X = zoo.operand(P.D, 3).numpy()
    want = np.linalg.solve(ref, X)
    got = inv @ X
    ctx.check(np.abs(got - want).max() <= 1e-6 * np.abs(want).max(), f"inverse: {np.abs(got - want).max():.1e}")


def large(ctx):
    """Many unknowns and right-hand sides."""
    from curvlinops import CGInverseLinearOperator, LSMRInverseLinearOperator

    what = ctx.choose("solver", ["cg", "lsmr"], free=True)
    n = ctx.choose("n", [90, 200], free=True)
    cols = ctx.choose("columns", [1, 0, 70, 130], free=True)
    cond = ctx.choose("condition number", [10.0, 300.0], free=True)
    Q, _ = np.linalg.qr(zoo.rand(n, n, seed=4).numpy())
    A = Q @ np.diag(np.linspace(1, cond, n)) @ Q.T
    A = (A + A.T) / 2
    B = zoo.operand(n, max(cols, 1)).numpy()
    B = B if cols else B[:, 0]
    if what == "cg":
        inv = CGInverseLinearOperator(aslinearoperator(A))
        inv.set_cg_hyperparameters(tol=1e-12)
    else:
        inv = LSMRInverseLinearOperator(aslinearoperator(A))
        inv.set_lsmr_hyperparameters(atol=1e-14, btol=1e-14, maxiter=5000)
    want, got = np.linalg.solve(A, B), inv @ B
    ctx.check(got.shape == want.shape, f"shape {got.shape}")
    err = np.abs(got - want).max(0) / np.abs(want).max(0)
    ctx.check(float(np.max(err)) <= 1e-7, f"relative error {np.max(err):.1e}")


def operators(ctx):
    """Inverses of the library's and SciPy's operators, also of other inverses."""
    from curvlinops import CGInverseLinearOperator, LSMRInverseLinearOperator

    from checks.c20 import library_operators

    name = ctx.choose("operator", list(library_operators()), free=True)
    how = ctx.choose("inverse", ["cg", "lsmr", "cg of lsmr", "lsmr of cg", "cg of cg"], free=True)
    shift = ctx.choose("shift", [1.0, 0.1, 5.0], free=True)
    op, A = library_operators()[name]
    n = len(A)
    S = op.T if name == "transposed" and how != "lsmr" else None
    if S is not None or (name in ("sub-matrix", "transposed") and "cg" in how):
        ctx.skip()  # (not symmetric)
    if "lsmr" in how and name in ("neumann", "neumann, no terms", "cg", "lsmr") or how in ("lsmr of cg",):
        ctx.skip()  # (operators without adjoints)
    A = A + shift * np.eye(n)
    inv = op + shift * aslinearoperator(np.eye(n))
    ref = A
    for kind in reversed(how.split(" of ")):
        if kind == "cg":
            inv = CGInverseLinearOperator(inv)
            inv.set_cg_hyperparameters(tol=1e-13, atol=1e-300, maxiter=1000)
        else:
            inv = LSMRInverseLinearOperator(inv)
            inv.set_lsmr_hyperparameters(atol=1e-15, btol=1e-15, conlim=0.0, maxiter=1000)
        ref = np.linalg.inv(ref)
    X = zoo.operand(n, 3).numpy()
    compare(ctx, inv @ X, ref @ X, "matrix", 1e-6)
    compare(ctx, inv @ X[:, 0], ref @ X[:, 0], "vector", 1e-6)


ASSUMPTIONS = ["CG: symmetric positive definite matrices; LSMR: square matrices",
               "accuracies are those of the chosen tolerances, the reference is a dense solve"]


def scenarios(tier):
    b = 1 if tier == "quick" else 2
    return [
        ("cg", cg_cases, b, "all 81 matrices B in {-1,0,1}^2x2 (A = B B^T + I/2) x 9 right-hand sides"),
        ("lsmr", lsmr_cases, b, "all 81 matrices in {-1,0,2}^2x2, singular ones included, x 9 right-hand sides"),
        ("conditioning", conditioning, None, "condition numbers up to 1e4"),
        ("slow convergence", slow, None, "8 and 12 geometrically distributed eigenvalues over 6 to 10 decades x scale x settings"),
        ("histories", histories, None, "every history of 3 (4) settings and products"),
        ("curvature", curvature, None, "damped curvature matrices"),
        ("large", large, None, "up to 200 unknowns, 130 right-hand sides"),
        ("operators", operators, None, "inverses of the library's and SciPy's operators and of other inverses x shift"),
    ]
