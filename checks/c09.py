"""C09: KFAC's trace, determinant, log-determinant, Frobenius norm in any call history."""

import math

from checks.c06 import build, outside
from checks.common import *
from mc import refs, zoo

PROPS = ["trace", "det", "logdet", "frobenius_norm"]


def reference(P, factors):
    """Values from the dense blocks; None where they are numerically undefined."""
    K = refs.kfac_dense(P, factors)
    out = {"trace": K.trace(), "frobenius_norm": K.norm()}
    conds = []
    for A, B, _, _ in factors.values():
        for f in (A, B):
            if f is not None:
                ev = torch.linalg.eigvalsh(f)
                conds.append(float(ev.min() / ev.max()))
    if all(c > (1e-5 if P.dtype == F64 else 3e-2) for c in conds):
        s, ld = torch.linalg.slogdet(K)
        out["logdet"], out["det"] = ld, s * ld.exp()
    return K, out


def judge(ctx, op, prop, ref, single=False):
    got = getattr(op, prop)
    if prop not in ref:
        return
    got, want = float(got), float(ref[prop])
    tol = {"logdet": 1e-5 + 1e-8 * abs(want), "det": 1e-5 * abs(want)}.get(prop, 1e-8 * abs(want))
    if single and prop == "det" and not 1e-30 < abs(want) < 1e30:
        return  # (beyond the range of single precision)
    if single:
        tol = {"logdet": 1e-2 + 1e-4 * abs(want), "det": 1e-2 * abs(want)}.get(prop, 1e-4 * abs(want))
    ctx.check(abs(got - want) <= tol, f"{prop}: {got} instead of {want}")


def problem(ctx, free):
    arch = ctx.choose("arch", ["mlp", "deep", "conv", "nobias", "seq", "grid", "gridpool", "branch", "mixed", "norm", "conv-groups",
                               "conv-nobias", "linear", "convout", "conv-rect", "twins", "thin", "bn", "strided", "chlast"])
    loss = ctx.choose("loss", LOSSES)
    red = ctx.choose("reduction", REDUCTIONS)
    sizes = ctx.choose("batches", [[4, 3, 5], [12], [1, 11], [5], [2, 1]])
    C = ctx.choose("C", [2, 3, 1])
    n = zoo.num_params(arch)
    idx = [0, 1, 4, 5] if arch in ("norm", "bn") else list(range(n))
    sel = ctx.pick("params", zoo.param_selections(len(idx)))
    return Problem(arch, loss, red, N=sum(sizes), C=C, sizes=sizes, params=[idx[i] for i in sel],
                   dtype=ctx.choose("dtype", [F64, torch.float32]))


def scenario(ctx):
    """Every property on every configuration, before and after a product."""
    fisher = ctx.choose("fisher", ["type-2", "empirical", "forward-only", "mc"])
    approx = ctx.choose("approx", ["expand", "reduce"])
    separate = ctx.choose("separate", [True, False])
    P = problem(ctx, False)
    if outside(P, approx):
        ctx.skip()
    if fisher == "mc":  # the factors are random: judge against the products with that operator
        op = build(P, fisher, approx, separate)
        K = op @ torch.eye(P.D, dtype=P.dtype)
        ref = {"trace": K.trace(), "frobenius_norm": K.norm()}
    else:
        K, ref = reference(P, refs.kfac_factors(P, fisher, approx, separate))
        op = build(P, fisher, approx, separate)
    if "det" in ref:
        ctx.notes.append("well-conditioned: determinants judged")
    for prop in ctx.choose("order", [PROPS, PROPS[::-1], ["logdet", "trace", "frobenius_norm", "det"]]):
        judge(ctx, op, prop, ref, P.dtype != F64)
    M = zoo.operand(P.D, 2)
    zoo.expect(ctx, op @ M.to(P.dtype), K.to(F64) @ M, "product after the properties", 1e-8 if P.dtype == F64 else 1e-3)
    for prop in PROPS:
        judge(ctx, op, prop, ref, P.dtype != F64)


def history(ctx):
    """All operation sequences: reading a property never changes a later answer."""
    sep = ctx.choose("separate", [True, False], free=True)
    arch = ctx.choose("arch", ["mlp", "conv", "nobias"])
    loss = ctx.choose("loss", ["mse", "bce"])
    P = Problem(arch, loss, "mean", N=12, C=2, sizes=[4, 3, 5])
    factors = refs.kfac_factors(P, "type-2", "expand", sep)
    K, ref = reference(P, factors)
    op = build(P, "type-2", "expand", sep)
    M = zoo.operand(P.D, 2)
    before = [p.detach().clone() for p in P.params]
    depth = 4 if ctx.tier == "quick" else 5
    for s in range(depth):
        what = ctx.choose(f"op{s}", PROPS + ["product", "save/load", "inverse", "mutate result"], free=True)
        if what in PROPS:
            judge(ctx, op, what, ref)
        elif what == "product":
            zoo.expect(ctx, op @ M, K @ M, "product")
        elif what == "save/load":
            op.load_state_dict(op.state_dict())
        elif what == "inverse":
            from curvlinops import KFACInverseLinearOperator

            KFACInverseLinearOperator(op, damping=0.1) @ M
        else:
            (op @ M).zero_()
    ctx.check(all(torch.equal(a, b) for a, b in zip(before, P.params)), "parameters changed")
    for prop in PROPS:
        judge(ctx, op, prop, ref)


def from_factors(P, factors):
    """Trace, norm and (if well-conditioned) log-determinant without forming anything that could overflow."""
    tr, fro2, ld, ok = 0.0, 0.0, 0.0, True
    for _, A, B in refs.layer_blocks(P, factors):
        fs = [f for f in (A, B) if f is not None]
        n, t, q = 1, 1.0, 1.0
        for f in fs:
            t, q, n = t * float(f.trace()), q * float(f.norm()), n * f.shape[0]
        tr, fro2 = tr + t, fro2 + q**2
        for f in fs:
            ev = torch.linalg.eigvalsh(f / f.abs().max())
            ok = ok and float(ev.min() / ev.max()) > 1e-5
            ld += n // f.shape[0] * float(torch.linalg.slogdet(f)[1])
    return {"trace": tr, "frobenius_norm": fro2**0.5, **({"logdet": ld} if ok else {})}


def edge(ctx):
    """The determinant is at the edge of the range of floating-point numbers (sub-normal or barely finite)."""
    target = ctx.choose("log10 det", [-300, -307, -308, -309, -312, -315, -318, -320, -321, -322, -323, -324, -326, 300, 307, 308, 309],
                        free=True)
    sep = ctx.choose("separate", [True, False], free=True)
    arch = ctx.choose("arch", ["nobias", "linear"], free=True)
    loss = ctx.choose("loss", LOSSES, free=True)
    orders = ["det", "trace", "frobenius_norm", "logdet"], ["logdet", "det", "trace"], ["frobenius_norm", "det", "logdet"]
    order = ctx.choose("order", list(orders), free=True)

    def make(scale):
        P = Problem(arch, loss, "sum", N=12, C=2, sizes=[4, 3, 5])
        P.X = P.X * scale
        with torch.no_grad():
            P.params[0].div_(scale)
        P.data = zoo.split(P.X, P.y, P.sizes)
        P.key = P.key + ("edge", scale)
        return P, from_factors(P, refs.kfac_factors(P, "type-2", "expand", sep))

    lds = [make(s)[1].get("logdet") for s in (1.0, 10.0)]
    if None in lds:
        ctx.skip()
    P, want = make(10 ** ((target * math.log(10) - lds[0]) / (lds[1] - lds[0])))
    if "logdet" not in want:
        ctx.skip()
    op = build(P, "type-2", "expand", sep)
    for prop in order:
        if prop == "det":  # (sub-normal, zero, or infinite: its factors may leave the range of numbers)
            op.det
        else:
            judge(ctx, op, prop, want)


def magnitudes(ctx):
    """Factors whose determinant is beyond the range of floating-point numbers."""
    sep = ctx.choose("separate", [True, False], free=True)
    scale = ctx.choose("gradient scale", [1e-60, 1e-30, 1e30, 1e60], free=True)
    fisher = ctx.choose("fisher", ["empirical", "type-2"], free=True)
    arch = ctx.choose("arch", ["linear", "nobias"], free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    first = ctx.choose("first", ["trace", "logdet", "frobenius_norm", "product", "det"], free=True)
    P = Problem(arch, "mse", red, N=12, C=5, sizes=[4, 3, 5])
    if fisher == "empirical" and arch == "linear":  # scaling the residuals scales the gradients
        P.y = P.y * scale
        with torch.no_grad():
            for p in P.params:
                p.mul_(scale)
    else:
        P.X = P.X * scale
        with torch.no_grad():
            P.params[0].div_(scale)
    P.data = zoo.split(P.X, P.y, P.sizes)
    P.key = P.key + ("scaled", scale, fisher)
    factors = refs.kfac_factors(P, fisher, "expand", sep)
    op = build(P, fisher, "expand", sep)
    want = from_factors(P, factors)
    if "logdet" in want:
        ctx.notes.append("well-conditioned: log-determinant judged")
    for prop in [first] + [p for p in want if p != first]:
        if prop == "product":
            op @ zoo.operand(P.D, 1)
        elif prop == "det":  # (zero or infinite)
            op.det
        else:
            judge(ctx, op, prop, want)


def large(ctx):
    fisher = ctx.choose("fisher", ["type-2", "empirical", "forward-only"], free=True)
    separate = ctx.choose("separate", [True, False], free=True)
    P = choose_large(ctx)
    K, ref = reference(P, refs.kfac_factors(P, fisher, "expand", separate))
    op = build(P, fisher, "expand", separate)
    ref.pop("det", None)  # (beyond the range of floating-point numbers)
    if "logdet" in ref:
        ctx.notes.append("well-conditioned: log-determinant judged")
    for prop in PROPS:
        judge(ctx, op, prop, ref)


ASSUMPTIONS = ["float64; determinants are judged when all Kronecker factors have condition number below 1e5",
               "the properties refer to the factors computed on first use (documented cache)"]


def scenarios(tier):
    return [
        ("configurations", scenario, 2 if tier == "quick" else 3,
         "deviations over Fisher type, approximation, bias handling, architecture, loss, partition, "
         "parameter selection and reading order"),
        ("magnitudes", magnitudes, None,
         "gradients and activations scaled by 1e-60 .. 1e60 x Fisher type x bias handling x architecture x first access"),
        ("edge", edge, None, "determinants from 1e-326 to 1e309 x bias handling x architecture x loss x reading order"),
        ("histories", history, 0 if tier == "quick" else 1,
         "all operation sequences of length 4 (thorough: 5) over the four properties, products, "
         "checkpointing and inversion"),
        ("large problems", large, None, LARGE_TEXT + " x bias handling x Fisher type"),
    ]
