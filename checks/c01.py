"""C01: products with the Hessian operator equal the risk's (block-diagonal) Hessian."""

import torch

from checks.common import *
from mc import refs, zoo


def blocks_of(n):
    """Block partitions of n parameters: None, every composition (all for n <= 4)."""
    comps = compositions(n) if n <= 4 else [[n], [1] * n, [1, n - 1], [n - 1, 1], [2, n - 2],
                                            [n - 2, 2], [1, 2, n - 3], [3, n - 3]]
    return [None] + comps


def scenario(ctx):
    from curvlinops import HessianLinearOperator

    P = choose_problem(ctx, losses=LOSSES + ["pow4", "smoothl1", "cels", "bcepw", "bcesoft", "wmse", "cesoft"], cls=extra_loss, dtypes=DTYPES)
    block_sizes = ctx.choose("block_sizes", blocks_of(len(P.params)))
    kw = op_kwargs(ctx, P)
    op = HessianLinearOperator(*P.args, block_sizes=block_sizes, **kw)
    H = refs.hessian(P)
    if block_sizes is not None:
        mask, off = torch.zeros_like(H), 0
        ps = list(P.params)
        for b in block_sizes:
            n = sum(p.numel() for p in ps[:b])
            ps = ps[b:]
            mask[off : off + n, off : off + n] = 1
            off += n
        H = H * mask
    check_op(ctx, op, H, P, "Hessian")


def core(ctx):
    """Full product of the dimensions that meet in the normalisation."""
    from curvlinops import HessianLinearOperator

    loss = ctx.choose("loss", LOSSES + ["pow4"], free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    sizes = ctx.choose("batches", compositions(4) + [[1, 1, 1, 1, 1, 1], [3, 3, 1]], free=True)
    fmt = ctx.choose("format", zoo.CORE_FORMATS, free=True)
    P = extra_loss("mlp", loss, red, N=sum(sizes), C=2, sizes=sizes)
    op = HessianLinearOperator(*P.args, check_deterministic=False)
    check_op(ctx, op, refs.hessian(P), P, "Hessian", fmt=fmt)


def degenerate(ctx):
    """Risks that are affine in, or independent of, some parameters (in some mini-batches)."""
    from curvlinops import HessianLinearOperator

    arch = ctx.choose("arch", ["gated", "mlp", "linear", "tied", "odd", "func", "nobias"], free=True)
    loss = ctx.choose("loss", ["affine", "mse", "ce", "pow4"], free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    sizes = ctx.choose("batches", [[2, 1, 1], [4], [1, 3]], free=True)
    sels = zoo.param_selections(zoo.num_params(arch))
    sel = ctx.pick("params", sels)
    P = extra_loss(arch, loss, red, N=4, C=2, sizes=sizes, params=sel)
    blocks = ctx.choose("block_sizes", blocks_of(len(P.params)), free=True)
    det = ctx.choose("check_deterministic", [True, False])
    op = HessianLinearOperator(*P.args, block_sizes=blocks, check_deterministic=det)
    H = refs.hessian(P)
    if blocks is not None:
        mask, off = torch.zeros_like(H), 0
        for b, ps in zip(blocks, torch.arange(len(P.params)).split(blocks)):
            n = sum(P.params[int(i)].numel() for i in ps)
            mask[off : off + n, off : off + n] = 1
            off += n
        H = H * mask
    check_op(ctx, op, H, P, "Hessian", fmt="mat3")


def large(ctx):
    from curvlinops import HessianLinearOperator

    P = choose_large(ctx)
    fmt = ctx.choose("format", ["some", "listvec"], free=True)
    op = HessianLinearOperator(*P.args, check_deterministic=False)
    check_op(ctx, op, refs.hessian(P), P, "Hessian", fmt=fmt)


def lengths(ctx):
    from curvlinops import HessianLinearOperator

    P = choose_ragged(ctx)
    op = HessianLinearOperator(*P.args, check_deterministic=ctx.choose("check_deterministic", [False, True], free=True))
    check_op(ctx, op, refs.hessian(P), P, "Hessian", fmt=ctx.choose("format", ["mat3", "listvec"]))


def tasks(ctx):
    from curvlinops import HessianLinearOperator

    P = choose_heads(ctx)
    op = HessianLinearOperator(*P.args, check_deterministic=ctx.choose("check_deterministic", [False, True], free=True))
    check_op(ctx, op, refs.hessian(P), P, "Hessian", fmt=ctx.choose("format", ["mat3", "listvec"]))


def weighted(ctx):
    from curvlinops import HessianLinearOperator

    P = choose_weighted(ctx)
    fmt = ctx.choose("format", ["mat3", "listvec"], free=True)
    op = HessianLinearOperator(*P.args, check_deterministic=ctx.choose("check_deterministic", [False, True], free=True))
    check_op(ctx, op, refs.hessian(P), P, "Hessian", fmt=fmt)


ASSUMPTIONS = ["generic data from a fixed stream; float64 with relative tolerance 1e-8, float32 and bfloat16 with 3e-4 and 0.15",
               "loss depends on the parameters through a graph autograd can differentiate twice"]


def scenarios(tier):
    return [
        ("configurations", scenario, 2 if tier == "quick" else 3,
         "deviations from mlp/mse/mean/[2,1,1]/C=2/all params over architecture, loss, "
         "reduction, batch partition, output dim, parameter selection, block sizes, options, format"),
        ("normalisation", core, None, "full product loss x reduction x batch partition x format"),
        ("degenerate", degenerate, 1 if tier == "quick" else 2,
         "affine losses, and parameters used for some data only or never: arch x loss x reduction x batches x block sizes"),
        ("tasks", tasks, None, HEADS_TEXT),
        ("lengths", lengths, None, RAGGED_TEXT),
        ("class weights", weighted, None, "class weights or ignored targets x reduction and batches x arch x C x parameters"),
        ("large problems", large, None, LARGE_TEXT),
    ]
