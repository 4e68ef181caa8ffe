"""C31: compositions of operators behave like the same composition of their dense matrices."""

import numpy as np
from scipy.sparse.linalg import aslinearoperator

from checks.common import *
from checks.ops import *
from mc import refs, rng, zoo
from mc.draws import outcomes

EXPR = ["shift", "scale", "transpose", "adjoint", "sum", "difference", "product", "square", "submatrix", "principal",
        "deflate", "projector", "cg", "lsmr", "neumann"]
USES = ["matrix", "vector", "column", "transposed", "trace", "diagonal", "norm", "hutch++", "fortran", "twice"]


class Expr:
    """An operator together with its dense matrix (recomputed on demand: operators are live)."""

    def __init__(self, op, dense, adjoint=True, spd=False, cond=1e9, sym=False):
        self.op, self.dense, self.adjoint, self.spd, self.sym = op, dense, adjoint, spd, sym

    @property
    def shape(self):
        return tuple(self.op.shape)


def base(kind, P):
    op = make_op(kind, P).to_scipy()
    memo = {}

    def dense():
        key = "fixed" if kind in KFACS + INVS else tuple(p._version for p in P.all_params)
        if key not in memo:
            fresh(P)
            ref = reference(kind, P)
            if ref is None:
                ref = make_op(kind, P) @ torch.eye(op.shape[1], dtype=P.dtype)
            memo[key] = ref.numpy()
        return memo[key]

    dense()
    return Expr(op, dense, spd=kind in PSD, sym=kind in SYMMETRIC)


def identity(n):
    return aslinearoperator(np.eye(n))


def extend(ctx, what, E, others):
    """Apply one combinator (Skip if it is not defined for this operand)."""
    from curvlinops import (CGInverseLinearOperator, LSMRInverseLinearOperator, NeumannInverseLinearOperator,
                            SubmatrixLinearOperator)
    from curvlinops.outer import OuterProductLinearOperator, Projector

    m, n = E.shape
    op, dense = E.op, E.dense
    need = {"shift": m == n, "transpose": E.adjoint, "adjoint": E.adjoint, "square": m == n, "deflate": m == n,
            "cg": E.spd and m == n, "lsmr": E.adjoint and m == n, "neumann": m == n, "principal": m == n}
    if not need.get(what, True):
        ctx.skip()
    if what == "shift":
        return Expr(op + 0.7 * identity(n), lambda: dense() + 0.7 * np.eye(n), E.adjoint, E.spd, sym=E.sym)
    if what == "scale":
        return Expr(-2.5 * op, lambda: -2.5 * dense(), E.adjoint, sym=E.sym)
    if what == "transpose":
        return Expr(op.T, lambda: dense().T, True, E.spd, sym=E.sym)
    if what == "adjoint":
        return Expr(op.H, lambda: dense().T, True, E.spd, sym=E.sym)
    if what in ("sum", "difference", "product"):
        F = others(m if what != "product" else n, n if what != "product" else None)
        if what == "sum":
            return Expr(op + F.op, lambda: dense() + F.dense(), E.adjoint, E.spd and F.spd, sym=E.sym and F.sym)
        if what == "difference":
            return Expr(op - F.op, lambda: dense() - F.dense(), E.adjoint, sym=E.sym and F.sym)
        return Expr(op @ F.op, lambda: dense() @ F.dense(), E.adjoint)
    if what == "square":
        return Expr(op**2, lambda: dense() @ dense(), E.adjoint, sym=E.sym, spd=E.sym)
    if what == "submatrix":
        rows, cols = list(range(m))[::-1][:-1] or [0], [n - 1, *range(n // 2)] if n > 1 else [0]
        cols = list(dict.fromkeys(cols))
        return Expr(SubmatrixLinearOperator(op, rows, cols), lambda: dense()[np.ix_(rows, cols)], E.adjoint)
    if what == "principal":
        idx = [n - 1, *range((n + 1) // 2)] if n > 1 else [0]
        idx = list(dict.fromkeys(idx))
        return Expr(SubmatrixLinearOperator(op, idx, idx), lambda: dense()[np.ix_(idx, idx)], E.adjoint, E.spd, sym=E.sym)
    if what in ("deflate", "projector"):
        Q = np.linalg.qr(zoo.rand(n, min(2, n), seed=5).numpy())[0]
        Pr = Projector(Q)
        if what == "projector":
            return Expr(op @ (identity(n) - Pr), lambda: dense() @ (np.eye(n) - Q @ Q.T), E.adjoint)
        c = np.linspace(0.5, 1.5, Q.shape[1])
        return Expr(op - OuterProductLinearOperator(c, Q), lambda: dense() - (Q * c) @ Q.T, E.adjoint, sym=E.sym)
    if what == "cg":
        damped = op + 0.5 * identity(n)
        inv = CGInverseLinearOperator(damped)
        inv.set_cg_hyperparameters(tol=1e-13, atol=1e-300, maxiter=2000)
        return Expr(inv, lambda: np.linalg.inv(dense() + 0.5 * np.eye(n)), False, False, sym=E.sym)
    if what == "lsmr":
        shift = 3.0 * max(1.0, np.linalg.norm(dense(), 2))
        inv = LSMRInverseLinearOperator(op + shift * identity(n))
        inv.set_lsmr_hyperparameters(atol=1e-15, btol=1e-15, conlim=1e12, maxiter=2000)
        return Expr(inv, lambda: np.linalg.inv(dense() + shift * np.eye(n)), False, sym=E.sym)
    s = 0.5 / max(1e-3, np.linalg.norm(dense(), 2))
    inv = NeumannInverseLinearOperator(op, num_terms=4, scale=s)

    def series():
        T, out, R = np.eye(n), np.zeros((n, n)), np.eye(n) - s * dense()
        for _ in range(5):
            out, T = out + T, T @ R
        return s * out

    return Expr(inv, series, False, sym=E.sym)


def use(ctx, E, what):
    import curvlinops as c

    m, n = E.shape
    A = E.dense()
    X = zoo.operand(n, 3).numpy()
    scale = max(1.0, np.abs(A).max()) * max(1.0, np.abs(X).max())

    def same(got, want, f=1e-6):
        got, want = np.asarray(got), np.asarray(want)
        ctx.check(got.shape == want.shape, f"{what}: shape {got.shape} instead of {want.shape}")
        err = np.abs(got - want).max() if want.size else 0.0
        ctx.check(bool(err <= f * scale), f"{what}: differs by {err:.2e} (scale {scale:.1e})")

    if what == "matrix":
        return same(E.op @ X, A @ X)
    if what == "fortran":
        return same(E.op @ np.asfortranarray(X), A @ X)
    if what == "vector":
        return same(E.op @ X[:, 1], A @ X[:, 1])
    if what == "column":
        return same(E.op @ X[:, 1:2], A @ X[:, 1:2])
    if what == "twice":
        E.op @ X
        same(E.op @ X[:, 0], A @ X[:, 0])
        return same(E.op @ X, A @ X)
    if what == "transposed":
        if not E.adjoint:
            ctx.skip()
        Y = zoo.operand(m, 2).numpy()
        scale *= max(1.0, np.abs(Y).max())
        return same(E.op.T @ Y, A.T @ Y)
    if what != "norm" and m != n:
        ctx.skip()
    cls = {"trace": c.HutchinsonTraceEstimator, "diagonal": c.HutchinsonDiagonalEstimator,
           "norm": c.HutchinsonSquaredFrobeniusNormEstimator, "hutch++": c.HutchPPTraceEstimator}[what]
    kw = dict(basis_dim=max(1, n // 2)) if what == "hutch++" else {}
    if what == "hutch++" and n < 2:
        ctx.skip()
    scale = max(1.0, np.abs(A).max()) ** 2 * n * n
    results = []
    for op in (E.op, aslinearoperator(A)):
        with rng.NumpyDraws(outcomes()):
            est = cls(op, **kw)
            results.append([est.sample() for _ in range(2)])
    if what == "hutch++":  # (its basis is not unique where the drawn block is rank deficient)
        rank = np.linalg.svd(A, compute_uv=False)
        if rank.min() < 1e-6 * rank.max():
            ctx.skip()
    same(results[0], results[1])


def run(depth):
    def scenario(ctx):
        kind = ctx.choose("operator", [k for k in ALL if k != "ACT"], free=True)
        names = [ctx.choose(f"combinator {i}", EXPR, free=True) for i in range(depth)]
        other = ctx.choose("other operator", ["GGN", "KFAC", "H", "J", "KINV", "dense"])
        loss = ctx.choose("loss", LOSSES)
        red = ctx.choose("reduction", REDUCTIONS)
        sel = ctx.choose("params", ["all", [1, 0], [0]])
        how = ctx.choose("use", USES)
        when = ctx.choose("parameters", ["fixed", "updated before use", "updated between uses"])
        P = Problem("linear", loss, red, N=3, C=2, sizes=[2, 1], params=None if sel == "all" else sel)

        def others(rows, cols):
            k = other
            D, O = P.D, 6
            if k == "J" or rows != D or (cols is not None and cols != D):
                if k != "dense" and (rows, cols) in ((O, D), (O, None)):
                    return base("J", P)
                if k != "dense" and (rows, cols) in ((D, O),):
                    return base("JT", P)
                if k == "J" and (rows, cols) == (D, None):
                    return base("JT", P)
                k = "dense"
            if k == "dense":
                B = zoo.rand(rows, cols or 3, seed=9).numpy()
                return Expr(aslinearoperator(B), lambda: B)
            return base(k, P)

        E = base(kind, P)
        if kind in KFACS + INVS:
            E.op @ np.eye(P.D)  # (evaluated now and kept)
        for w in names:
            E = extend(ctx, w, E, others)
        if when != "fixed" and "lsmr" in names:
            ctx.skip()  # (its shift was chosen for the old matrix)
        if when != "fixed" and other in ("KFAC", "KINV"):
            ctx.skip()
        if when == "updated between uses":
            use(ctx, E, how)
        if when != "fixed":
            with torch.no_grad():
                for i, p in enumerate(P.all_params):
                    p.copy_(zoo.rand(*p.shape, seed=70 + i, dtype=p.dtype))
            fresh(P)
        use(ctx, E, how)
        if how not in ("matrix", "twice"):
            use(ctx, E, "matrix")
        fresh(P)

    return scenario


def live(ctx):
    """The same operands before and after an update of the parameters."""
    kind = ctx.choose("operator", [k for k in ALL if k not in ["ACT"] + KFACS + INVS], free=True)
    what = ctx.choose("combinator", [e for e in EXPR if e != "lsmr"], free=True)
    how = ctx.choose("use", ["vector", "column", "matrix", "transposed", "trace", "diagonal", "norm"], free=True)
    before = ctx.choose("before", [1, 2, 3], free=True)
    P = Problem("linear", "mse" if kind in NO_LOSS else "ce", "mean", N=3, C=2, sizes=[2, 1])
    E = extend(ctx, what, base(kind, P), lambda r, c: base("GGN", P) if (r, c) in ((P.D, None), (P.D, P.D)) else base(
        "JT" if r == P.D else "J", P))
    for k in range(before):
        use(ctx, E, how)
    for k in range(2):
        with torch.no_grad():
            for i, p in enumerate(P.all_params):
                p.copy_(zoo.rand(*p.shape, seed=70 + i + 10 * k, dtype=p.dtype))
        fresh(P)
        use(ctx, E, how)
        use(ctx, E, how)
    fresh(P)


ASSUMPTIONS = ["a linear model with up to 8 parameters, 3 data; SciPy's own algebra of operators is trusted",
               "inverses: CG and LSMR with tolerance 1e-13 on matrices damped to a moderate condition number",
               "estimators: the same scripted outcomes on the composition and on its dense matrix"]


def scenarios(tier):
    what = "operator x {} combinator(s); deviations over the other operator, loss, reduction, parameters, use, updates"
    bounds = (1, 0, None) if tier == "quick" else (3, 2, 0)
    return [(f"{k} combinator(s)", run(k), b, what.format(k)) for k, b in zip((1, 2, 3), bounds) if b is not None] + [
        ("live", live, None, "operator x combinator x use: one to three uses, then twice an update and two further uses")]
