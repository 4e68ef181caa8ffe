"""C20: the truncated Neumann series."""

import numpy as np
from scipy.sparse.linalg import aslinearoperator

from checks.c18 import Op, compare
from checks.c19 import rhs, small_matrices
from checks.common import *
from mc import zoo


def series(A, b, K, a):
    """a * sum_{k=0}^K (I - a A)^k b, term by term."""
    T = np.eye(len(A)) - a * A
    return a * sum(np.linalg.matrix_power(T, k) @ b for k in range(K + 1))


def polynomial(ctx):
    """The exact polynomial, for every small matrix (convergent or not)."""
    from curvlinops import NeumannInverseLinearOperator

    A = ctx.choose("A", small_matrices(2), free=True) * 0.5
    K = ctx.choose("num_terms", [3, 0, 1, 2, 7], free=True)
    a = ctx.choose("scale", [1.0, 0.25, -0.5, 2.0], free=True)
    b = ctx.choose("b", rhs(2))
    check = ctx.choose("check_nan", [True, False])
    how = ctx.choose("set", ["constructor", "setter", "setter twice"])
    fmt = ctx.choose("format", ["mat", "vec", "column", "int", "user operator", "complex"])
    base = Op(A) if fmt == "user operator" else aslinearoperator(A)
    if how == "constructor":
        inv = NeumannInverseLinearOperator(base, num_terms=K, scale=a, check_nan=check)
    else:
        inv = NeumannInverseLinearOperator(base, num_terms=9, scale=0.1)
        if how == "setter twice":
            inv.set_neumann_hyperparameters(num_terms=5, scale=3.0, check_nan=not check)
            inv @ b
        inv.set_neumann_hyperparameters(num_terms=K, scale=a, check_nan=check)
    ctx.check(tuple(inv.shape) == (2, 2), "shape")
    x = {"mat": np.column_stack([b, b + 1, 3 * b]), "vec": b, "column": b.reshape(-1, 1), "int": b.astype(int),
         "user operator": b, "complex": b * (1 + 2j)}[fmt]
    x0 = x.copy()
    compare(ctx, inv @ x, series(A, x, K, a), f"{K} terms, scale {a}")
    ctx.check(np.array_equal(x, x0), "the operand was modified")


def convergence(ctx):
    """Error of the series inside its radius of convergence."""
    from curvlinops import NeumannInverseLinearOperator

    n = ctx.choose("n", [2, 3], free=True)
    seed = ctx.choose("basis", [1, 2, 3, 4], free=True)
    top = ctx.choose("largest eigenvalue", [0.5, 1.0, 1.9, 10.0], free=True)
    K = ctx.choose("num_terms", ["default", 0, 10, 1000], free=True)
    Q, _ = np.linalg.qr(zoo.rand(n, n, seed=seed).numpy())
    ev = np.linspace(0.3, 1.0, n) * top
    A = Q @ np.diag(ev) @ Q.T
    a = 1.0 if top < 2 else 0.15
    kw = {} if K == "default" else {"num_terms": K}
    K = 100 if K == "default" else K
    if a != 1.0:
        kw["scale"] = a
    inv = NeumannInverseLinearOperator(aslinearoperator(A), **kw)
    b = zoo.rand(n, seed=20 + seed).numpy()
    exact = np.linalg.solve(A, b)
    rho = np.abs(1 - a * ev).max()
    bound = rho ** (K + 1) * np.linalg.norm(exact) + 1e-10
    err = np.linalg.norm(inv @ b - exact)
    ctx.check(err <= bound * 1.0001, f"error {err:.2e} exceeds {bound:.2e}")


def divergence(ctx):
    """NaNs raise if and only if they are checked for."""
    from curvlinops import NeumannInverseLinearOperator

    K = ctx.choose("num_terms", [1, 2, 3, 700, 1200], free=True)
    check = ctx.choose("check_nan", [True, False, "default"], free=True)
    size = ctx.choose("entry", [10.0, 1e200, -1e200, float("nan"), 0.5], free=True)
    fmt = ctx.choose("format", ["vec", "mat"], free=True)
    A = np.array([[size, 0.0], [1.0, 0.5]])
    b = np.array([1.0, 1.0])
    with np.errstate(all="ignore"):
        T = lambda v: v - A @ v
        v, want = b.copy(), b.copy()
        for _ in range(K):
            v = T(v)
            want = want + v
        kw = {} if check == "default" else {"check_nan": check}
        inv = NeumannInverseLinearOperator(aslinearoperator(A), num_terms=K, **kw)
        nan = bool(np.isnan(want).any())
        try:
            got = inv @ (b if fmt == "vec" else np.column_stack([0 * b, b]))
        except ValueError:
            ctx.check(check is not False, "NaN check although switched off")
            ctx.check(nan or np.isnan(size), "ValueError without NaN")
            return
    ctx.check(not (nan and check is not False), "NaNs were not reported")
    got = got if fmt == "vec" else got[:, 1]
    ctx.check(np.allclose(got, want, rtol=1e-9, equal_nan=True), f"{got} vs {want}")


def histories(ctx):
    """Hyper-parameters hold until set again; unspecified ones return to their defaults."""
    from curvlinops import NeumannInverseLinearOperator

    B = zoo.rand(3, 3, seed=4).numpy()
    A = B @ B.T / np.linalg.norm(B @ B.T)
    inv = NeumannInverseLinearOperator(aslinearoperator(A))
    other = NeumannInverseLinearOperator(aslinearoperator(A), num_terms=1)
    b = zoo.rand(3, 2, seed=8).numpy()
    K, a = 100, 1.0
    for k in range(4 if ctx.tier == "quick" else 5):
        ev = ctx.choose(f"event{k}", ["vec", "mat", "terms", "scale", "both", "defaults"], free=True)
        if ev == "terms":
            inv.set_neumann_hyperparameters(num_terms=4)
            K, a = 4, 1.0
        elif ev == "scale":
            inv.set_neumann_hyperparameters(scale=0.5)
            K, a = 100, 0.5
        elif ev == "both":
            inv.set_neumann_hyperparameters(num_terms=2, scale=1.5, check_nan=False)
            K, a = 2, 1.5
        elif ev == "defaults":
            inv.set_neumann_hyperparameters()
            K, a = 100, 1.0
        else:
            x = b if ev == "mat" else b[:, 0]
            compare(ctx, inv @ x, series(A, x, K, a), f"{ev} with {K} terms, scale {a}")
    compare(ctx, inv @ b, series(A, b, K, a), "final product")
    compare(ctx, other @ b, series(A, b, 1, 1.0), "another inverse")


def large(ctx):
    """Many terms, dimensions and columns."""
    from curvlinops import NeumannInverseLinearOperator

    n = ctx.choose("n", [3, 70, 150], free=True)
    K = ctx.choose("num_terms", [40, 100, 150, 1000, 1500], free=True)
    cols = ctx.choose("columns", [0, 1, 130], free=True)
    check = ctx.choose("check_nan", [True, False], free=True)
    a = ctx.choose("scale", [1.0, 0.4], free=True)
    B = zoo.rand(n, n, seed=8).numpy()
    A = 1.5 * np.eye(n) + 0.4 * (B + B.T) / np.linalg.norm(B + B.T, 2)  # (slow enough that late terms matter)
    A[0, 0], A[0, 1:], A[1:, 0] = 1e-3, 0.0, 0.0
    X = zoo.operand(n, max(cols, 1)).numpy()
    X = X if cols else X[:, 0]
    if cols == 130 and K > 150:
        ctx.skip()
    T, term, total = np.eye(n) - a * A, X.copy(), X.copy()
    for _ in range(K):
        term = T @ term
        total = total + term
    inv = NeumannInverseLinearOperator(aslinearoperator(A), num_terms=K, scale=a, check_nan=check)
    compare(ctx, inv @ X, a * total, f"{K} terms", 1e-9)


def library_operators(n=3):
    """Operators of this library (and of SciPy) with their dense matrices."""
    import curvlinops as c
    from curvlinops.outer import OuterProductLinearOperator, Projector

    B = zoo.rand(n, n, seed=4).numpy()
    A = np.eye(n) + 0.3 * (B @ B.T) / np.linalg.norm(B @ B.T, 2)
    op = aslinearoperator(A)
    Q = np.linalg.qr(zoo.rand(n, 2, seed=6).numpy())[0]
    idx = [n, *range(n - 1)]
    big = np.eye(n + 1) + 0.2 * zoo.rand(n + 1, n + 1, seed=3).numpy()
    cg, lsmr = c.CGInverseLinearOperator(op), c.LSMRInverseLinearOperator(op)
    cg.set_cg_hyperparameters(tol=1e-14, maxiter=1000)
    lsmr.set_lsmr_hyperparameters(atol=1e-15, btol=1e-15, conlim=0.0, maxiter=1000)
    P = Problem("linear", "mse", "sum", N=4, C=1, sizes=[2, 2])
    from checks.ops import make_op, reference

    H = reference("GGN", P).numpy()
    return {
        "neumann": (c.NeumannInverseLinearOperator(op, num_terms=2, scale=0.7), series(A, np.eye(n), 2, 0.7)),
        "neumann, no terms": (c.NeumannInverseLinearOperator(op, num_terms=0, scale=0.7), 0.7 * np.eye(n)),
        "cg": (cg, np.linalg.inv(A)), "lsmr": (lsmr, np.linalg.inv(A)),
        "sub-matrix": (c.SubmatrixLinearOperator(aslinearoperator(big), idx, idx), big[np.ix_(idx, idx)]),
        "projector": (Projector(Q), Q @ Q.T),
        "outer": (OuterProductLinearOperator(np.array([0.4, 1.3]), Q), (Q * [0.4, 1.3]) @ Q.T),
        "shifted": (op + 0.5 * aslinearoperator(np.eye(n)), A + 0.5 * np.eye(n)),
        "transposed": (aslinearoperator(big[:n, :n]).T, big[:n, :n].T),
        "squared": (op**2, A @ A), "scaled": (0.3 * op, 0.3 * A),
        "identity": (aslinearoperator(np.eye(n)), np.eye(n)), "zero": (aslinearoperator(np.zeros((n, n))), np.zeros((n, n))),
        "curvature": (make_op("GGN", P).to_scipy(), H),
    }


def operators(ctx):
    """Series of all sorts of operators, also of other inverses."""
    from curvlinops import NeumannInverseLinearOperator

    op, A = ctx.pick("operator", library_operators(), free=True)
    K = ctx.choose("num_terms", [3, 0, 1, 50], free=True)
    a = ctx.choose("scale", [0.3, 1.0, -0.5], free=True)
    twice = ctx.choose("inverse of the inverse", [False, True], free=True)
    n = len(A)
    inv = NeumannInverseLinearOperator(op, num_terms=K, scale=a)
    ref = series(A, np.eye(n), K, a)
    if twice:
        inv, ref = NeumannInverseLinearOperator(inv, num_terms=2, scale=0.2), series(ref, np.eye(n), 2, 0.2)
    for fmt in ("mat", "vec"):
        x = zoo.operand(n, 3).numpy()
        x = x if fmt == "mat" else x[:, 0]
        compare(ctx, inv @ x, ref @ x, f"{K} terms, scale {a} [{fmt}]", 1e-7)


ASSUMPTIONS = ["the reference evaluates the truncated series term by term with dense powers"]


def scenarios(tier):
    return [
        ("polynomial", polynomial, 1 if tier == "quick" else 3,
         "all 81 matrices in {-1/2,0,1/2}^2x2 x terms x scale; deviations over right-hand side, flags, format"),
        ("convergence", convergence, None, "error bound inside the radius of convergence"),
        ("divergence", divergence, None, "NaN reporting"),
        ("histories", histories, None, "every history of 4 (5) settings and products"),
        ("operators", operators, None, "series of the library's and SciPy's operators, and of inverses x terms x scale x nesting"),
        ("large", large, None, "up to 1500 terms, 150 dimensions, 130 columns"),
    ]
