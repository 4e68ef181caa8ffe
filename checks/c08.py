"""C08: the damped KFAC inverse under every damping rule, cache setting, and call history."""

import math

from checks.c06 import build, kfac_problem, outside
from checks.common import *
from mc import refs, zoo

DAMPINGS = {
    "float": dict(damping=0.05), "float-large": dict(damping=3.0), "tuple": dict(damping=(0.3, 0.01)),
    "tuple2": dict(damping=(0.002, 0.7)),
    "heuristic": dict(damping=0.04, use_heuristic_damping=True),
    "heuristic-min": dict(damping=1e-4, use_heuristic_damping=True, min_damping=0.3),
    "heuristic-mid": dict(damping=0.09, use_heuristic_damping=True, min_damping=0.25),
    "heuristic-zero": dict(damping=0.0, use_heuristic_damping=True, min_damping=0.05),
    "exact": dict(damping=0.05, use_exact_damping=True),
    "exact-large": dict(damping=2.0, use_exact_damping=True),
}


def inverse_dense(P, factors, damping, use_heuristic_damping=False, min_damping=1e-8,
                  use_exact_damping=False, **_):
    """Dense inverse from the documented damping rules."""
    blocks = []
    for name, (A, B, pos, joint) in factors.items():
        m = B.shape[0]
        dA, dB = damping if isinstance(damping, tuple) else (damping, damping)
        if use_heuristic_damping and A is not None:
            n = A.shape[0]
            if A.trace() > 0 and B.trace() > 0:
                pi = math.sqrt(float(m * A.trace() / (n * B.trace())))
                dA = max(pi * math.sqrt(damping), min_damping)
                dB = max(math.sqrt(damping) / pi, min_damping)
        for coords, a, b in refs.layer_blocks(P, {name: (A, B, pos, joint)}):
            eb = torch.eye(b.shape[0], dtype=b.dtype)
            if use_exact_damping:
                K = b if a is None else torch.kron(b, a)
                blocks.append((coords, torch.linalg.inv(K + damping * torch.eye(K.shape[0], dtype=b.dtype))))
            elif a is None:
                blocks.append((coords, torch.linalg.inv(b + dB * eb)))
            else:
                ea = torch.eye(a.shape[0], dtype=a.dtype)
                blocks.append((coords, torch.kron(torch.linalg.inv(b + dB * eb), torch.linalg.inv(a + dA * ea))))
    return refs.assemble(P, blocks)


def inv_op(*a, **k):
    from curvlinops import KFACInverseLinearOperator

    return KFACInverseLinearOperator(*a, **k)


TOL = dict(rtol=1e-7, atol=1e-9)


def scenario(ctx):
    damp = ctx.choose("damping", list(DAMPINGS), free=True)
    cache = ctx.choose("cache", [True, False])
    fisher = ctx.choose("fisher", ["type-2", "empirical", "forward-only"])
    approx = ctx.choose("approx", ["expand", "reduce"])
    separate = ctx.choose("separate", [True, False])
    P = kfac_problem(ctx, ["mlp", "deep", "seq", "conv", "convout", "mixed", "branch", "nobias", "linear", "norm",
                           "conv-groups", "conv-rect", "twins", "thin", "strided", "chlast"], dtypes=(F64, torch.float32))
    if outside(P, approx):
        ctx.skip()
    factors = refs.kfac_factors(P, fisher, approx, separate)
    if "heuristic" in damp and any(A is None and separate is False for A, _, _, _ in factors.values()):
        pass
    if damp == "heuristic-zero" and any(A is None for A, _, _, _ in factors.values()):
        ctx.skip()  # a lone bias is not damped by the heuristic: singular
    op = inv_op(build(P, fisher, approx, separate), cache=cache, **DAMPINGS[damp])
    ref = inverse_dense(P, factors, **DAMPINGS[damp])
    check_op(ctx, op, ref, P, "KFAC inverse", **TOL)


def history(ctx):
    """Operation sequences over a KFAC operator and its inverse."""
    from curvlinops import KFACLinearOperator  # noqa: F401

    damp = ctx.choose("damping", ["tuple", "heuristic", "exact", "float"], free=True)
    cache = ctx.choose("cache", [True, False], free=True)
    separate = ctx.choose("separate", [True, False], free=True)
    arch = ctx.choose("arch", ["mlp", "conv", "twins"])
    P = Problem(arch, ctx.choose("loss", LOSSES), "mean", N=3, C=2, sizes=[2, 1])
    factors = refs.kfac_factors(P, "type-2", "expand", separate)
    A = build(P, "type-2", "expand", separate)
    op = inv_op(A, cache=cache, **DAMPINGS[damp])
    K, ref = refs.kfac_dense(P, factors), inverse_dense(P, factors, **DAMPINGS[damp])
    OPS = ["inv", "kfac", "inv-list", "inv-vec-list", "trace", "adjoint", "scipy", "second inverse", "roundtrip", "det"]
    M = zoo.operand(P.D, 2)
    shapes = shapes_of(P.params)
    depth = 3 if ctx.tier == "quick" else 4
    for step in range(depth):
        what = ctx.choose(f"op{step}", OPS, free=step < depth - 1 or True)
        if what == "inv":
            zoo.expect(ctx, op @ M, ref @ M, "inverse", **TOL)
        elif what == "kfac":
            zoo.expect(ctx, A @ M, K @ M, "KFAC", **TOL)
        elif what == "inv-list":
            L = zoo.to_list(M, shapes)
            keep = [x.clone() for x in L]
            ids = [id(x) for x in L]
            R = op @ L
            zoo.expect(ctx, zoo.from_list(R), ref @ M, "inverse, list", **TOL)
            ctx.check(ids == [id(x) for x in L] and all(torch.equal(a, b) for a, b in zip(L, keep)),
                      "the operand was modified")
        elif what == "inv-vec-list":
            zoo.expect(ctx, zoo.flat(op @ zoo.to_list(M[:, 0], shapes)), ref @ M[:, 0], "inverse, list of vectors", **TOL)
        elif what == "trace":
            zoo.expect(ctx, torch.as_tensor(A.trace), K.trace(), "trace", **TOL)
        elif what == "det":
            zoo.expect(ctx, torch.as_tensor(A.frobenius_norm), K.norm(), "frobenius norm", **TOL)
        elif what == "adjoint":
            zoo.expect(ctx, op.adjoint() @ M, ref.T @ M, "adjoint", **TOL)
        elif what == "scipy":
            S = op.to_scipy()
            zoo.expect(ctx, torch.from_numpy(S @ M.numpy()), ref @ M, "SciPy export", **TOL)
            zoo.expect(ctx, torch.from_numpy(S.rmatvec(M[:, 0].numpy())), ref.T @ M[:, 0], "SciPy adjoint", **TOL)
        elif what == "second inverse":
            other = "float" if damp != "float" else "exact"
            zoo.expect(ctx, inv_op(A, **DAMPINGS[other]) @ M, inverse_dense(P, factors, **DAMPINGS[other]) @ M,
                       "another inverse of the same KFAC", **TOL)
        elif what == "roundtrip" and damp in ("tuple", "exact", "float"):
            # the inverse undoes the damped matrix
            zoo.expect(ctx, torch.linalg.inv(ref) @ (op @ M), M, "undoing the inverse", rtol=1e-6, atol=1e-8)


class Dead(nn.Module):
    """A layer without signal (zero inputs) or without gradient."""

    def __init__(self, kind, bias):
        super().__init__()
        self.l1 = nn.Linear(3, 3, bias=bias)
        self.l2 = nn.Linear(3, 2, bias=bias)
        self.kind = kind

    def forward(self, x):
        if self.kind == "input":
            return self.l2(torch.tanh(self.l1(0.0 * x)))
        if self.kind == "hidden":
            return self.l2(torch.relu(self.l1(x) - 1e3))
        return self.l2(x) + 0.0 * self.l1(x)[:, :2]


def dead(ctx):
    """Layers whose input or gradient covariance vanishes."""
    kind = ctx.choose("dead", ["input", "hidden", "gradient"], free=True)
    bias = ctx.choose("bias", [False, True], free=True)
    damp = ctx.choose("damping", [d for d in DAMPINGS if d != "heuristic-zero"], free=True)
    loss = ctx.choose("loss", LOSSES, free=True)
    separate = ctx.choose("separate", [True, False], free=True)
    fisher = ctx.choose("fisher", ["type-2", "empirical", "forward-only"], free=True)
    P = Problem("linear", loss, "mean", N=3, C=2, sizes=[2, 1])
    P.model = zoo.init(Dead(kind, bias))
    P.all_params = list(P.model.parameters())
    P.params, P.key = P.all_params, ("dead", kind, bias, loss)
    P.D = sum(p.numel() for p in P.params)
    factors = refs.kfac_factors(P, fisher, "expand", separate)
    op = inv_op(build(P, fisher, "expand", separate), **DAMPINGS[damp])
    M = zoo.operand(P.D, 2)
    got = op @ M
    ctx.check(bool(torch.isfinite(got).all()), "non-finite result")
    if "heuristic" not in damp:
        zoo.expect(ctx, got, inverse_dense(P, factors, **DAMPINGS[damp]) @ M, "inverse", **TOL)
    else:  # the heuristic is undefined for the dead layer: it must be damped, not annihilated
        ctx.check(float((M * got).sum(0).min()) > 0, "the inverse is not positive definite")
        I = torch.eye(P.D, dtype=P.dtype)
        ctx.check(float(torch.linalg.eigvalsh(((op @ I) + (op @ I).T) / 2).min()) > 1e-6,
                  "a direction was annihilated")


def retry(ctx):
    """Single precision factors that are exactly singular (dyadic data: no rounding)."""
    eps = ctx.choose("damping", [1e-8, 1e-9, 1e-5, 1.0, (1e-9, 0.5), (0.25, 1e-9), (1e-8, 1e-9)], free=True)
    sel = ctx.choose("params", [[0], [1], [0, 1], [1, 0]], free=True)
    separate = ctx.choose("separate", [True, False], free=True)
    heuristic = ctx.choose("rule", ["plain", "heuristic", "exact"], free=True)
    double = ctx.choose("retry", [True, False], free=True)
    cache = ctx.choose("cache", [True, False], free=True)
    fisher = ctx.choose("fisher", ["empirical", "forward-only"], free=True)
    if isinstance(eps, tuple) and heuristic != "plain":
        ctx.skip()
    P = Problem("linear", "mse", "sum", N=1, C=2, sizes=[1], dtype=torch.float32, params=sel)
    with torch.no_grad():
        P.all_params[0].copy_(torch.tensor([[0.5, 1.0, -1.0], [2.0, 0.5, 0.25]]))
        P.all_params[1].copy_(torch.tensor([0.5, -1.0]))
    P.X, P.y = torch.tensor([[1.0, 0.5, -2.0]]), torch.tensor([[0.5, 1.0]])
    P.data = [(P.X, P.y)]
    P.key = ("dyadic", tuple(sel))
    rule = dict(damping=eps, use_heuristic_damping=heuristic == "heuristic",
                min_damping=eps if isinstance(eps, float) else 1e-8,
                use_exact_damping=heuristic == "exact")
    op = inv_op(build(P, fisher, "expand", separate), retry_double_precision=double, cache=cache, **rule)
    M = zoo.operand(P.D, 2, torch.float32)
    try:
        got = op @ M
    except RuntimeError as e:
        ctx.check(not double, f"failed although double precision is allowed: {e}")
        ctx.notes.append("single precision Cholesky failed")
        return
    ctx.check(got.dtype == torch.float32 and got.shape == M.shape, "dtype or shape changed")
    ctx.check(bool(torch.isfinite(got).all()), "non-finite result")
    zoo.expect(ctx, op @ M, got, "second product", rtol=1e-5)
    if (double and heuristic != "exact") or eps == 1.0:
        factors = refs.kfac_factors(P, fisher, "expand", separate)
        f64 = {k: (None if A is None else A.double(), B.double(), q, j) for k, (A, B, q, j) in factors.items()}
        P.params = [p.double() for p in P.params]
        zoo.expect(ctx, got.double(), inverse_dense(P, f64, **rule) @ M.double(), "inverse", rtol=2e-2, atol=1e-3)


def large(ctx):
    damp = ctx.choose("damping", ["tuple", "heuristic", "exact", "float"], free=True)
    fisher = ctx.choose("fisher", ["type-2", "empirical"], free=True)
    separate = ctx.choose("separate", [True, False], free=True)
    P = choose_large(ctx, losses=["mse", "ce"])
    factors = refs.kfac_factors(P, fisher, "expand", separate)
    op = inv_op(build(P, fisher, "expand", separate), **DAMPINGS[damp])
    ref = inverse_dense(P, factors, **DAMPINGS[damp])
    check_op(ctx, op, ref, P, "KFAC inverse", fmt="some", **TOL)


ASSUMPTIONS = ["float64 except for the retry scenario; relative tolerance 1e-7",
               "every parameter belongs to exactly one Linear/Conv2d layer that is called once",
               "for a layer with vanishing factor the heuristic has no documented value: only finiteness and "
               "positive definiteness are judged"]


def scenarios(tier):
    return [
        ("configurations", scenario, 1 if tier == "quick" else 2,
         "every damping rule; deviations over cache, Fisher type, approximation, architecture, loss, "
         "partition, parameter selection, format"),
        ("histories", history, 0 if tier == "quick" else 1,
         "all operation sequences of length 3 (thorough: 4) over a KFAC operator and its inverses"),
        ("dead layers", dead, None, "full product over layers with vanishing factors"),
        ("retry", retry, None, "full product over numerically singular single-precision factors"),
        ("large problems", large, None, LARGE_TEXT + " x damping rule x bias handling x Fisher type"),
    ]
