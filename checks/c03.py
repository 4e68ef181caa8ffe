"""C03: products with the empirical Fisher equal the scaled sum of gradient outer products."""

from checks.common import *
from mc import refs, zoo


def scenario(ctx):
    from curvlinops import EFLinearOperator

    P = choose_problem(ctx, losses=LOSSES + ["bcesoft", "bcepw", "cels", "wmse"], cls=extra_loss, dtypes=DTYPES)
    op = EFLinearOperator(*P.args, **op_kwargs(ctx, P))
    check_op(ctx, op, refs.empirical_fisher(P), P, "EF")


def core(ctx):
    from curvlinops import EFLinearOperator

    loss = ctx.choose("loss", LOSSES, free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    sizes = ctx.choose("batches", compositions(4) + [[1] * 6, [3, 3, 1]], free=True)
    arch = ctx.choose("arch", ["mlp", "seq"], free=True)
    C = ctx.choose("C", [2, 1, 3], free=True)
    fmt = ctx.choose("format", zoo.FORMATS[:5], free=True)
    P = Problem(arch, loss, red, N=sum(sizes), C=C, sizes=sizes)
    op = EFLinearOperator(*P.args, check_deterministic=False)
    check_op(ctx, op, refs.empirical_fisher(P), P, "EF", fmt=fmt)


def options(ctx):
    """Losses with options, and with user-defined subclasses, under every normalisation."""
    from curvlinops import EFLinearOperator

    loss = ctx.choose("loss", ["bcepw", "cels", "wmse", "bcesoft"], free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    arch = ctx.choose("arch", ["mlp", "seq", "convout"], free=True)
    C = ctx.choose("C", [2, 3, 1], free=True)
    sizes = ctx.choose("batches", [[2, 1, 1], [4], [1, 3]], free=True)
    P = extra_loss(arch, loss, red, N=sum(sizes), C=C, sizes=sizes)
    op = EFLinearOperator(*P.args, check_deterministic=False)
    check_op(ctx, op, refs.empirical_fisher(P), P, "EF", fmt="mat3")


def magnitudes(ctx):
    """Residuals, gradients and operands of any magnitude (nothing is negligible in absolute terms)."""
    from curvlinops import EFLinearOperator

    scale = ctx.choose("residuals", [1e-3, 1e-6, 1e-9, 1e3, 1e6], free=True)
    loss = ctx.choose("loss", ["mse", "wmse"], free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    arch = ctx.choose("arch", ["mlp", "seq"], free=True)
    part = ctx.choose("affects", ["all data", "first mini-batch"], free=True)
    P = extra_loss(arch, loss, red, N=4, C=2, sizes=[2, 1, 1])
    with torch.no_grad():
        small = P.model(P.X) + scale * zoo.rand(*P.y.shape, seed=31)
    P.y = small if part == "all data" else torch.cat([small[:2], P.y[2:]])
    P.data = zoo.split(P.X, P.y, P.sizes)
    P.key = P.key + (scale, part)
    op = EFLinearOperator(*P.args, check_deterministic=False)
    check_op(ctx, op, refs.empirical_fisher(P), P, "EF", fmt="eye", rtol=1e-5, atol=0.0)


def large(ctx):
    from curvlinops import EFLinearOperator

    P = choose_large(ctx)
    fmt = ctx.choose("format", ["some", "listvec"], free=True)
    op = EFLinearOperator(*P.args, check_deterministic=False)
    check_op(ctx, op, refs.empirical_fisher(P), P, "EF", fmt=fmt)


def lengths(ctx):
    from curvlinops import EFLinearOperator

    P = choose_ragged(ctx)
    op = EFLinearOperator(*P.args, check_deterministic=ctx.choose("check_deterministic", [False, True], free=True))
    check_op(ctx, op, refs.empirical_fisher(P), P, "EF", fmt=ctx.choose("format", ["mat3", "listvec"]))


def tasks(ctx):
    from curvlinops import EFLinearOperator

    P = choose_heads(ctx)
    op = EFLinearOperator(*P.args, check_deterministic=ctx.choose("check_deterministic", [False, True], free=True))
    check_op(ctx, op, refs.empirical_fisher(P), P, "EF", fmt=ctx.choose("format", ["mat3", "listvec"]))


def weighted(ctx):
    from curvlinops import EFLinearOperator

    P = choose_weighted(ctx, means=False)
    fmt = ctx.choose("format", ["mat3", "listvec"], free=True)
    op = EFLinearOperator(*P.args, check_deterministic=ctx.choose("check_deterministic", [False, True], free=True))
    check_op(ctx, op, refs.empirical_fisher(P), P, "EF", fmt=fmt)


ASSUMPTIONS = [
    "generic data from a fixed stream; float64 with relative tolerance 1e-8, float32 and bfloat16 with 3e-4 and 0.15",
    "positions of a higher-dimensional output count as separate loss terms, and with mean "
    "reduction the scale is one over the number of averaged entries (the package's convention)",
]


def scenarios(tier):
    return [
        ("configurations", scenario, 2 if tier == "quick" else 3,
         "deviations from mlp/mse/mean/[2,1,1]/C=2/all params over architecture, loss, "
         "reduction, batch partition, output dim, parameter selection, options, format"),
        ("normalisation", core, None,
         "full product loss x reduction x batch partition x weight sharing x C x format"),
        ("loss options", options, None,
         "full product of losses with options (label smoothing, positive weights, soft labels, subclass) x reduction "
         "x weight sharing x C x batch partition"),
        ("magnitudes", magnitudes, None, "residuals of size 1e-9 to 1e6 x loss x reduction x weight sharing"),
        ("tasks", tasks, None, HEADS_TEXT),
        ("lengths", lengths, None, RAGGED_TEXT),
        ("class weights", weighted, None, "class weights or ignored targets x reduction and batches x arch x C x parameters"),
        ("large problems", large, None, LARGE_TEXT),
    ]
