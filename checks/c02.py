"""C02: products with the GGN operator equal J^T H_l J of the empirical risk."""

from checks.common import *
from mc import refs, zoo

XL = LOSSES + ["pow4", "smoothl1", "cels", "bcepw", "bcesoft", "wmse", "cesoft"]


def scenario(ctx):
    from curvlinops import GGNLinearOperator

    P = choose_problem(ctx, losses=XL, cls=extra_loss, dtypes=DTYPES)
    op = GGNLinearOperator(*P.args, **op_kwargs(ctx, P))
    check_op(ctx, op, refs.ggn(P), P, "GGN")


def core(ctx):
    from curvlinops import GGNLinearOperator

    loss = ctx.choose("loss", LOSSES + ["pow4"], free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    sizes = ctx.choose("batches", compositions(4) + [[1] * 6, [3, 3, 1]], free=True)
    arch = ctx.choose("arch", ["mlp", "seq"], free=True)
    fmt = ctx.choose("format", zoo.CORE_FORMATS, free=True)
    P = extra_loss(arch, loss, red, N=sum(sizes), C=2, sizes=sizes)
    op = GGNLinearOperator(*P.args, check_deterministic=False)
    check_op(ctx, op, refs.ggn(P), P, "GGN", fmt=fmt)


def large(ctx):
    from curvlinops import GGNLinearOperator

    P = choose_large(ctx)
    fmt = ctx.choose("format", ["some", "listvec"], free=True)
    op = GGNLinearOperator(*P.args, check_deterministic=False)
    check_op(ctx, op, refs.ggn(P), P, "GGN", fmt=fmt)


def lengths(ctx):
    from curvlinops import GGNLinearOperator

    P = choose_ragged(ctx)
    op = GGNLinearOperator(*P.args, check_deterministic=ctx.choose("check_deterministic", [False, True], free=True))
    check_op(ctx, op, refs.ggn(P), P, "GGN", fmt=ctx.choose("format", ["mat3", "listvec"]))


def tasks(ctx):
    from curvlinops import GGNLinearOperator

    P = choose_heads(ctx)
    op = GGNLinearOperator(*P.args, check_deterministic=ctx.choose("check_deterministic", [False, True], free=True))
    check_op(ctx, op, refs.ggn(P), P, "GGN", fmt=ctx.choose("format", ["mat3", "listvec"]))


def weighted(ctx):
    from curvlinops import GGNLinearOperator

    P = choose_weighted(ctx)
    fmt = ctx.choose("format", ["mat3", "listvec"], free=True)
    op = GGNLinearOperator(*P.args, check_deterministic=ctx.choose("check_deterministic", [False, True], free=True))
    check_op(ctx, op, refs.ggn(P), P, "GGN", fmt=fmt)


ASSUMPTIONS = ["generic data from a fixed stream; float64 with relative tolerance 1e-8, float32 and bfloat16 with 3e-4 and 0.15",
               "the loss is not affine in the prediction"]


def scenarios(tier):
    return [
        ("configurations", scenario, 2 if tier == "quick" else 3,
         "deviations from mlp/mse/mean/[2,1,1]/C=2/all params over architecture, loss, "
         "reduction, batch partition, output dim, parameter selection, options, format"),
        ("normalisation", core, None,
         "full product loss x reduction x batch partition x weight sharing x format"),
        ("tasks", tasks, None, HEADS_TEXT),
        ("lengths", lengths, None, RAGGED_TEXT),
        ("class weights", weighted, None, "class weights or ignored targets x reduction and batches x arch x C x parameters"),
        ("large problems", large, None, LARGE_TEXT),
    ]
