"""C18: sub-matrices of linear operators."""

from itertools import permutations, product

import numpy as np
from scipy.sparse import csr_matrix
from scipy.sparse.linalg import LinearOperator, aslinearoperator

from checks.common import *
from mc import zoo

SHAPES = {"square": (3, 3), "tall": (4, 2), "wide": (2, 3), "one": (1, 1)}
DTYPES = {"float64": np.float64, "float32": np.float32, "complex": np.complex128, "int": np.int64}


def dense(shape, dt, seed=5):
    n, m = shape
    A = zoo.rand(n, m, seed=seed).numpy() * 3
    if dt == "complex":
        A = A + 1j * zoo.rand(n, m, seed=seed + 1).numpy()
    if dt == "int":
        A = np.round(A * 5)
    return A.astype(DTYPES[dt])


class Op(LinearOperator):
    """User operator that only knows vector products."""

    def __init__(self, A):
        super().__init__(A.dtype, A.shape)
        self.A = A

    def _matvec(self, x):
        return self.A @ x

    def _rmatvec(self, x):
        return self.A.conj().T @ x


def wrap(A, how):
    if how == "matrix":
        return aslinearoperator(A)
    if how == "sparse":
        return aslinearoperator(csr_matrix(A))
    if how == "user":
        return Op(A)
    raise ValueError(how)


def index_lists(n, empty=False):
    return [list(p) for k in range(0 if empty else 1, n + 1) for p in permutations(range(n), k)][::-1]


OPERANDS = ["vec", "column", "mat", "int vec", "complex vec", "complex mat", "float32 vec", "F-order", "strided", "one column mat"]


def operand(n, how):
    M = zoo.operand(n, 3).numpy()
    return {"vec": M[:, 0], "column": M[:, :1], "mat": M, "int vec": np.arange(1, n + 1),
            "complex vec": M[:, 0] + 1j * M[:, 1], "complex mat": M + 1j * M[:, ::-1], "float32 vec": M[:, 0].astype(np.float32),
            "F-order": np.asfortranarray(M), "strided": zoo.operand(2 * n, 3).numpy()[::2][:, ::-1],
            "one column mat": np.ascontiguousarray(M[:, 1:2])}[how]


def compare(ctx, got, want, what, tol=None):
    ctx.check(isinstance(got, np.ndarray), f"{what}: {type(got).__name__}")
    ctx.check(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    tol = tol or (1e-5 if got.dtype in (np.float32, np.complex64) else 1e-10)
    s = max(np.abs(want).max(), 1.0) if want.size else 1.0
    ctx.check(bool(np.all(np.abs(got - want) <= tol * s)), f"{what}: {got} vs {want}")


VIAS = ["@", "matvec", "adjoint", "transpose", "rmatvec", "scaled", "sum", "product", "nested", "adjoint twice",
        "nested in adjoint", "nested in transpose", "adjoint of nested", "difference", "power", "left"]


def products(ctx):
    shape = SHAPES[ctx.choose("shape", list(SHAPES), free=True)]
    rows = ctx.choose("rows", index_lists(shape[0]), free=True)
    cols = ctx.choose("cols", index_lists(shape[1]), free=True)
    judge(ctx, shape, rows, cols, free=False)


def core(ctx):
    """Everything that may meet in one product, for a few index lists."""
    shape, rows, cols = ctx.choose("indices", [("tall", [2, 0], [1, 0]), ("square", [2, 0, 1], [0, 2]),
                                               ("wide", [1], [2, 0])], free=True)
    judge(ctx, SHAPES[shape], rows, cols, free=True)


def judge(ctx, shape, rows, cols, free):
    from curvlinops import SubmatrixLinearOperator

    dt = ctx.choose("dtype", list(DTYPES), free=free)
    how = ctx.choose("operator", ["matrix", "user", "sparse"], free=free)
    rows, cols = list(rows), list(cols)
    A = dense(shape, dt)
    keep = (list(rows), list(cols))
    S = SubmatrixLinearOperator(wrap(A, how), rows, cols)
    ref = A[rows][:, cols]
    ctx.check(tuple(S.shape) == ref.shape, f"shape {S.shape}")
    via = ctx.choose("via", VIAS, free=free)
    kind = ctx.choose("operand", OPERANDS, free=free)
    n, m = ref.shape
    x = operand({"adjoint": n, "rmatvec": n, "transpose": n, "nested": 1, "nested in adjoint": 1,
                 "nested in transpose": 1, "adjoint of nested": n, "left": n}.get(via, m), kind)
    x0 = x.copy()
    if via == "@":
        got, want = S @ x, ref @ x
    elif via == "matvec":
        got, want = (S.matvec(x) if x.ndim == 1 else S.matmat(x)), ref @ x
    elif via == "adjoint":
        got, want = S.adjoint() @ x, ref.conj().T @ x
    elif via == "adjoint twice":
        got, want = S.H.H @ x, ref @ x
    elif via == "rmatvec":
        got, want = (S.rmatvec(x) if x.ndim == 1 else S.rmatmat(x)), ref.conj().T @ x
    elif via == "transpose":
        got, want = S.T @ x, ref.T @ x
    elif via == "scaled":
        got, want = (2 * S) @ x, 2 * (ref @ x)
    elif via == "sum":
        got, want = (S + S) @ x, 2 * (ref @ x)
    elif via == "product":
        got, want = (S.H @ S) @ x, ref.conj().T @ (ref @ x)
    elif via == "nested":
        N = SubmatrixLinearOperator(S, list(range(n))[::-1], [m - 1])
        got, want = N @ x, ref[::-1][:, -1:] @ x
    elif via == "nested in adjoint":
        N = SubmatrixLinearOperator(S.H, list(range(m))[::-1], [n - 1])
        got, want = N @ x, ref.conj().T[::-1][:, -1:] @ x
    elif via == "nested in transpose":
        N = SubmatrixLinearOperator(S.T, list(range(m))[::-1], [n - 1])
        got, want = N @ x, ref.T[::-1][:, -1:] @ x
    elif via == "adjoint of nested":
        N = SubmatrixLinearOperator(S, list(range(n))[::-1], [m - 1])
        got, want = N.H @ x, ref[::-1][:, -1:].conj().T @ x
    elif via == "difference":
        got, want = (S - 3 * S) @ x, -2 * (ref @ x)
    elif via == "power":
        N = S @ S.H
        got, want = (N**2) @ operand(n, kind), np.linalg.matrix_power(ref @ ref.conj().T, 2) @ operand(n, kind)
    elif via == "left":
        got, want = x.T @ S, x.T @ ref
    compare(ctx, got, want, f"{via}", 2e-5 if dt == "float32" else None)
    ctx.check(np.array_equal(x, x0), "the operand was modified")
    ctx.check((rows, cols) == keep, "the index lists were modified")


BAD = {"duplicate": [0, 0], "negative": [-1], "too large": [3], "float": [0.0, 1.0], "string": ["0"],
       "mixed": [0, 7], "late duplicate": [2, 1, 2]}


def bounds(ctx):
    """Every index list of length up to two around the bounds, for every shape and axis."""
    from curvlinops import SubmatrixLinearOperator

    shape = SHAPES[ctx.choose("shape", list(SHAPES), free=True)]
    axis = ctx.choose("axis", [0, 1], free=True)
    how = ctx.choose("operator", ["matrix", "user"], free=True)
    vals = range(-2, max(shape) + 2)
    A = dense(shape, "float64")
    op = wrap(A, how)
    for k in (1, 2, 3):
        for idx in product(vals, repeat=k):
            ctx.count(states=1, transitions=1, traces=1)
            valid = all(0 <= i < shape[axis] for i in idx) and len(set(idx)) == k
            args = [[0], [0]]
            args[axis] = list(idx)
            try:
                S = SubmatrixLinearOperator(op, *args)
            except ValueError:
                ctx.check(not valid, f"valid indices {args} of shape {shape} rejected")
            else:
                ctx.check(valid, f"invalid indices {args} of shape {shape} accepted")
                compare(ctx, S @ np.eye(len(args[1])), A[args[0]][:, args[1]], "matrix")
    for idx in ([0, 1.0], [1.0, 0], [0.0], ["0", 0], [0, "0"], [0, None], [(0,)], [0, 0.0]):
        args = [[0], [0]]
        args[axis] = idx
        S = SubmatrixLinearOperator(op, [0], [0])
        for make in (lambda *a: SubmatrixLinearOperator(op, *a), S.set_submatrix):
            try:
                make(*args)
                ctx.fail(f"index list {idx} accepted")
            except ValueError:
                pass
        compare(ctx, S @ np.eye(1), A[:1][:, :1], f"matrix after the rejected index list {idx}")


def histories(ctx):
    """Sequences of re-definitions, valid and invalid, interleaved with products."""
    from curvlinops import SubmatrixLinearOperator

    A = dense((3, 3), "float64")
    good = {"all": ([0, 1, 2], [0, 1, 2]), "row": ([1], [2, 0]), "swap": ([2, 0], [1]), "big": ([2, 1, 0], [1, 2])}
    first = ctx.choose("first", list(good), free=True)

    def look():
        ctx.check(tuple(S.shape) == ref.shape, f"shape {S.shape}, expected {ref.shape}")
        x = operand(ref.shape[1], "mat")
        compare(ctx, S @ x, ref @ x, "product")
        compare(ctx, S @ x[:, 0], ref @ x[:, 0], "vector product")
        y = operand(ref.shape[0], "mat")
        compare(ctx, S.adjoint() @ y, ref.T @ y, "adjoint product")
        # an adjoint taken earlier keeps showing the matrix it was taken from
        z = operand(adjref.shape[1], "mat")
        compare(ctx, adj @ z, adjref @ z, "earlier adjoint")

    depth = 3 if ctx.tier == "quick" else 4
    nested = ctx.choose("of", ["operator", "sub-matrix", "transposed sub-matrix"], free=True)
    if nested != "operator":
        depth -= 1
        big = dense((5, 5), "float64", seed=8)
        r0, c0 = [3, 0, 4], [1, 4, 2]
        base = SubmatrixLinearOperator(wrap(big, ctx.choose("operator", ["matrix", "user"])), r0, c0)
        A = big[np.ix_(r0, c0)]
        if nested != "sub-matrix":
            base, A = base.T, A.T
    else:
        base = wrap(A, ctx.choose("operator", ["matrix", "user"]))
    S = SubmatrixLinearOperator(base, *good[first])
    ref = A[good[first][0]][:, good[first][1]]
    adj, adjref = S.adjoint(), ref.T
    for k in range(depth):
        ev = ctx.choose(f"event{k}", ["set " + g for g in good] + ["bad rows " + b for b in BAD] +
                        ["bad cols " + b for b in BAD] + ["look"], free=True)
        if ev == "look":
            look()
        elif ev.startswith("set "):
            r, c = good[ev[4:]]
            S.set_submatrix(list(r), list(c))
            ref = A[r][:, c]
        else:
            bad = BAD[ev[9:]]
            args = (bad, [0]) if ev.startswith("bad rows") else ([0], bad)
            try:
                S.set_submatrix(*args)
            except ValueError:
                pass
            else:
                ctx.fail(f"accepted invalid indices {args}")
            try:
                SubmatrixLinearOperator(base, *args)
            except ValueError:
                pass
            else:
                ctx.fail(f"constructed with invalid indices {args}")
    look()


def curvature(ctx):
    """Sub-matrices of exported curvature matrices."""
    from curvlinops import SubmatrixLinearOperator

    from checks.ops import make_op, reference

    kind = ctx.choose("kind", ["H", "GGN", "EF", "KFAC", "KINV", "J", "JT", "H-blocks"], free=True)
    P = Problem("linear", ctx.choose("loss", LOSSES, free=True), "mean", N=3, C=2, sizes=[2, 1])
    op, ref = make_op(kind, P), reference(kind, P).numpy()
    n, m = ref.shape
    rows = {"even": list(range(0, n, 2)), "reversed": list(range(n))[::-1], "last": [n - 1]}
    cols = {"odd": list(range(1, m, 2)), "all": list(range(m)), "first": [0], "rot": list(range(1, m)) + [0]}
    r = ctx.pick("rows", rows, free=True)
    c = ctx.pick("cols", cols, free=True)
    S = SubmatrixLinearOperator(op.to_scipy(), r, c)
    sub = ref[r][:, c]
    for how in ("vec", "mat"):
        x = operand(len(c), how)
        compare(ctx, S @ x, sub @ x, "product")
        y = operand(len(r), how)
        compare(ctx, S.adjoint() @ y, sub.T @ y, "adjoint product")


def large(ctx):
    """Index lists, operators and operands far larger than those of the other scenarios."""
    from curvlinops import SubmatrixLinearOperator

    n, m = ctx.choose("shape", [(150, 140), (300, 20), (20, 300)], free=True)
    order = ctx.choose("order", ["shuffled", "sorted", "reversed"], free=True)
    count = ctx.choose("count", ["all", "half", "all but one", 70, 1], free=True)
    K = ctx.choose("columns", [0, 130, 1], free=True)
    how = ctx.choose("operator", ["matrix", "user"], free=True)
    A = dense((n, m), "float64")

    def pick(N, seed):
        idx = list(np.random.RandomState(seed).permutation(N))
        k = {"all": N, "half": N // 2, "all but one": N - 1}.get(count, count)
        idx = [int(i) for i in idx[: min(k, N)]]
        return {"shuffled": idx, "sorted": sorted(idx), "reversed": sorted(idx)[::-1]}[order]

    rows, cols = pick(n, 1), pick(m, 2)
    want = A[np.ix_(rows, cols)]
    op = SubmatrixLinearOperator(wrap(A, how), rows, cols)
    X = zoo.operand(len(cols), max(K, 1)).numpy()
    X = X if K else X[:, 0]
    compare(ctx, op @ X, want @ X, "product")
    Y = zoo.operand(len(rows), max(K, 1)).numpy()
    Y = Y if K else Y[:, 0]
    compare(ctx, op.adjoint() @ Y, want.T @ Y, "adjoint product")


ASSUMPTIONS = ["index lists are lists of Python integers and non-empty"]


def scenarios(tier):
    return [
        ("products", products, 1 if tier == "quick" else 2,
         "every pair of ordered index lists of matrices up to 4 x 2 and 3 x 3; deviations over dtype, wrapped "
         "operator, way of multiplying, operand"),
        ("core", core, None, "full product dtype x operator x way of multiplying x operand for three index pairs"),
        ("histories", histories, 0 if tier == "quick" else 1, "every history of 3 (4) valid/invalid re-definitions, of a sub-matrix of an operator or of another sub-matrix"),
        ("bounds", bounds, None, "every index list of length 1..3 with entries around the bounds, per shape and axis"),
        ("curvature", curvature, None, "sub-matrices of curvature exports"),
        ("large", large, None, "up to 300 rows or columns, 130 operand columns"),
    ]
