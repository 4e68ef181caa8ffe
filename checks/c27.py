"""C27: outer-product and projector operators."""

from itertools import permutations, product

import numpy as np
from scipy.sparse.linalg import LinearOperator, aslinearoperator, eigsh

from checks.c18 import OPERANDS, compare, operand
from checks.common import *
from mc import zoo

# all pairs of columns over a grid in three dimensions, and generic matrices of other sizes
GRID = [np.array(c, dtype=float).reshape(2, 3).T for c in product([-1, 0, 2], repeat=6)]
COEFFS = [(1.0, 1.0), (2.0, -3.0), (0.0, 1.5), (-1.0, -1.0), (1e-6, 1e6)]


def generic(D, K, seed=3):
    return zoo.rand(D, K, seed=seed + 10 * D + K).numpy()


def layout(A, how):
    if how == "F-order":
        return np.asfortranarray(A)
    if how == "strided":
        B = np.zeros((2 * A.shape[0], 3 * A.shape[1]), dtype=A.dtype)
        B[::2, ::3] = A
        return B[::2, ::3]
    if how == "reversed":
        return A[::-1, ::-1].copy()[::-1, ::-1]
    if how == "read-only":
        A = A.copy()
        A.flags.writeable = False
        return A
    return A.copy()


def multiply(op, X, how):
    if how == "@":
        return op @ X
    if how == "dot":
        return op.dot(X)
    if how == "*":
        return op * X
    if how == "adjoint":
        return op.adjoint() @ X
    if how == "H.T":
        return op.T @ X
    if how == "twice adjoint":
        return op.H.H @ X
    if how == "matvec":
        return op.matvec(X) if X.ndim == 1 or X.shape[1] == 1 else op.matmat(X)
    if how == "rmatvec":
        return op.rmatvec(X) if X.ndim == 1 or X.shape[1] == 1 else op.rmatmat(X)
    if how == "left":
        return (X.T @ op).T
    raise ValueError(how)


WAYS = ["@", "dot", "*", "adjoint", "H.T", "twice adjoint", "matvec", "rmatvec", "left"]


def grid(ctx):
    """Every pair of columns from the grid."""
    from curvlinops.outer import OuterProductLinearOperator

    i = ctx.choose("first column", list(range(27)), free=True)
    j = ctx.choose("second column", list(range(27)), free=True)
    A = GRID[27 * i + j]
    for c in COEFFS:
        dense = A @ np.diag(c) @ A.T
        op = OuterProductLinearOperator(np.array(c), A)
        compare(ctx, op @ np.eye(3), dense, f"coefficients {c}")
        for k in range(3):
            compare(ctx, op @ np.eye(3)[k], dense[:, k], f"column {k}")
        compare(ctx, op.adjoint() @ np.eye(3), dense, "adjoint")


def shapes(ctx):
    from curvlinops.outer import OuterProductLinearOperator

    D = ctx.choose("D", [3, 1, 2, 6], free=True)
    K = ctx.choose("K", [2, 1, 3, 7], free=True)
    how = ctx.choose("operand", OPERANDS, free=True)
    way = ctx.choose("way", WAYS, free=True)
    lay = ctx.choose("layout", ["C", "F-order", "strided", "reversed", "read-only"])
    dt = ctx.choose("dtype", ["float64", "float32", "int"])
    A = generic(D, K)
    A = np.round(4 * A).astype(int) if dt == "int" else A.astype(dt)
    c = np.linspace(-1.5, 2.0, K).astype("float64" if dt == "int" else dt)
    kind = ctx.choose("coefficients", ["generic", "ones", "integer", "negative stride", "zero"])
    c = {"generic": c, "ones": np.ones(K, c.dtype), "integer": np.arange(1, K + 1), "zero": 0 * c,
         "negative stride": c[::-1].copy()[::-1]}[kind]
    X = operand(D, how)
    A_, c_ = layout(A, lay), c
    op = OuterProductLinearOperator(c_, A_)
    ctx.check(op.shape == (D, D), f"shape {op.shape}")
    copies = A_.copy(), c_.copy(), X.copy()
    dense = (A.astype(float) * c) @ A.astype(float).T
    for step in range(2):
        got = multiply(op, X, way)
        compare_loose(ctx, got, dense @ X, f"product {step}", 2e-5 if dt == "float32" or how == "float32 vec" else 1e-10)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(copies, (A_, c_, X))), "an argument was modified")
    got *= 5.0  # the result belongs to the caller
    compare_loose(ctx, multiply(op, X, way), dense @ X, "after overwriting a result",
                  2e-5 if dt == "float32" or how == "float32 vec" else 1e-10)


def compare_loose(ctx, got, want, what, tol):
    ctx.check(isinstance(got, np.ndarray) and got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    s = max(np.abs(want).max(), 1.0)
    ctx.check(bool(np.all(np.abs(got - want) <= tol * s)), f"{what}: {got} vs {want}")


def projector(ctx):
    """Orthonormal bases: all signed coordinate subspaces, and generic ones."""
    from curvlinops.outer import Projector

    D = ctx.choose("D", [3, 1, 2, 4, 6], free=True)
    K = ctx.choose("K", [1, 2, 3, 4], free=True)
    if K > D:
        ctx.skip()
    kind = ctx.choose("basis", ["coordinates", "generic", "signed"], free=True)
    if kind == "generic":
        Q, _ = np.linalg.qr(generic(D, K))
    else:
        idx = ctx.choose("vectors", list(permutations(range(D), K)), free=D <= 4)
        Q = np.eye(D)[:, list(idx)]
        if kind == "signed":
            Q = Q * np.where(np.arange(K) % 2, 1.0, -1.0)
    lay = ctx.choose("layout", ["C", "F-order", "strided", "reversed", "read-only"])
    P = Projector(layout(Q, lay))
    dense = Q @ Q.T
    I = np.eye(D)
    compare(ctx, P @ I, dense, "projector")
    compare(ctx, P @ (P @ I), dense, "idempotent")
    compare(ctx, (P @ P) @ I, dense, "SciPy product")
    compare(ctx, P.H @ I, dense, "adjoint")
    compare(ctx, P @ Q, Q, "the basis is fixed")
    compare(ctx, P @ Q[:, 0], Q[:, 0], "a basis vector is fixed")
    R = aslinearoperator(I) - P
    compare(ctx, R @ Q, 0 * Q, "the complement annihilates the basis")
    x = operand(D, ctx.choose("operand", OPERANDS))
    compare(ctx, P @ x, dense @ x, "product")


def frame(ctx):
    """The sum with unit coefficients for any set of columns, also more than dimensions."""
    from curvlinops.outer import Projector

    D = ctx.choose("D", [3, 1, 2, 6], free=True)
    K = ctx.choose("K", [2, 1, 3, 4, 7], free=True)
    how = ctx.choose("operand", OPERANDS, free=True)
    way = ctx.choose("way", WAYS, free=True)
    dt = ctx.choose("dtype", ["float64", "float32", "int"], free=True)
    lay = ctx.choose("layout", ["C", "F-order", "strided", "reversed", "read-only"])
    A = generic(D, K)
    A = np.round(4 * A).astype(int) if dt == "int" else A.astype(dt)
    B = layout(A, lay)
    P = Projector(B)
    X = operand(D, how)
    dense = A.astype(float) @ A.astype(float).T
    compare_loose(ctx, multiply(P, X, way), dense @ X, "product", 2e-5 if dt == "float32" or how == "float32 vec" else 1e-10)
    ctx.check(np.array_equal(A, B), "the columns were modified")


def algebra(ctx):
    """Removing an eigenspace with a projector."""
    from checks.ops import make_op, reference
    from curvlinops.outer import OuterProductLinearOperator, Projector

    kind = ctx.choose("kind", ["GGN", "H", "EF", "KFAC"], free=True)
    k = ctx.choose("eigenvectors", [1, 2, 4], free=True)
    Pr = Problem("linear", "ce", "mean", N=3, C=2, sizes=[2, 1])
    M = reference(kind, Pr).numpy()
    A = make_op(kind, Pr).to_scipy()
    lam, V = np.linalg.eigh(M)
    lam, V = lam[-k:], V[:, -k:]
    I = np.eye(len(M))
    compare(ctx, (A - OuterProductLinearOperator(lam, V)) @ I, M - V @ np.diag(lam) @ V.T, "deflation")
    Q = aslinearoperator(I) - Projector(V)
    compare(ctx, (Q @ A @ Q) @ I, M - V @ np.diag(lam) @ V.T, "projection onto the complement")


def large(ctx):
    """Many columns in the decomposition and in the operand."""
    from curvlinops.outer import OuterProductLinearOperator, Projector

    D, K = ctx.choose("size", [(150, 140), (300, 40), (90, 90), (70, 1)], free=True)
    cols = ctx.choose("columns", [0, 1, 130], free=True)
    which = ctx.choose("operator", ["outer", "projector"], free=True)
    A = generic(D, K)
    if which == "projector":
        A = np.linalg.qr(A)[0]
    c = np.ones(K) if which == "projector" else np.linspace(-2, 3, K)
    op = Projector(A) if which == "projector" else OuterProductLinearOperator(c, A)
    X = zoo.operand(D, max(cols, 1)).numpy()
    X = X if cols else X[:, 0]
    for f in (lambda: op @ X, lambda: op.adjoint() @ X):
        compare_loose(ctx, f(), (A * c) @ (A.T @ X), "product", 1e-9)


ASSUMPTIONS = ["real coefficients and vectors; at least one vector"]


def scenarios(tier):
    b = 1 if tier == "quick" else None
    return [
        ("grid", grid, None, "all 729 pairs of columns in {-1,0,2}^3 x 5 coefficient vectors"),
        ("shapes", shapes, b, "dimension x rank x operand x way of multiplying; deviations over layout, dtype, coefficients"),
        ("projector", projector, b, "all coordinate bases with signs and orders, generic bases"),
        ("frame", frame, 0 if tier == "quick" else None, "projector of generic columns: dimension x number x operand x way x dtype"),
        ("algebra", algebra, None, "deflation of curvature exports"),
        ("large", large, None, "up to 300 dimensions, 140 outer products, 130 operand columns"),
    ]
