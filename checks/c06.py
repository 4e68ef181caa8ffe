"""C06: KFAC with a deterministic Fisher type equals its documented Kronecker definition."""

from checks.common import *
from mc import refs, zoo

KARCHS = ["mlp", "deep", "nobias", "linear", "seq", "pool", "grid", "gridpool", "conv", "convout", "mixed", "branch",
          "norm", "twins", "thin", "bn", "strided", "chlast"] + [f"conv-{k}" for k in zoo.CONV]
FISHERS = ["type-2", "empirical", "forward-only"]


def kfac_problem(ctx, archs=KARCHS, dtypes=(F64,)):
    """Like choose_problem, but only parameters of supported layers are selectable."""
    arch = ctx.choose("arch", list(archs))
    loss = ctx.choose("loss", LOSSES)
    red = ctx.choose("reduction", REDUCTIONS)
    sizes = choose_sizes(ctx)
    C = ctx.choose("C", [2, 1, 3, 4, 11])
    n = zoo.num_params(arch)
    idx = [0, 1, 4, 5] if arch in ("norm", "bn") else list(range(n))
    sel = ctx.pick("params", zoo.param_selections(len(idx)))
    seed = ctx.choose("values", [0, 1, *zoo.SPECIAL])
    dt = ctx.choose("dtype", list(dtypes)) if len(dtypes) > 1 else F64
    if dt == torch.bfloat16 and str(seed).startswith("fit"):
        ctx.skip()  # (residuals consist of rounding errors)
    return Problem(arch, loss, red, N=sum(sizes), C=C, sizes=sizes, params=[idx[i] for i in sel], seed=seed, dtype=dt)


def outside(P, approx):
    """Unequal 'same' padding has no unfold counterpart in the expand setting."""
    return P.arch == "conv-same2" and approx == "expand"


def build(P, fisher, approx, separate, **kw):
    from curvlinops import KFACLinearOperator

    kw.setdefault("check_deterministic", False)
    return KFACLinearOperator(*P.args, fisher_type=fisher, kfac_approx=approx,
                              separate_weight_and_bias=separate, **kw)


def scenario(ctx):
    fisher = ctx.choose("fisher", FISHERS)
    approx = ctx.choose("approx", ["expand", "reduce"])
    separate = ctx.choose("separate", [True, False])
    P = kfac_problem(ctx, dtypes=DTYPES)
    if outside(P, approx):
        ctx.skip()
    kw = op_kwargs(ctx, P)
    if ctx.choose("num_per_example_loss_terms", ["infer", "given"]) == "given":
        kw["num_per_example_loss_terms"] = refs.num_terms(P)
    op = build(P, fisher, approx, separate, **kw)
    ref = refs.kfac_dense(P, refs.kfac_factors(P, fisher, approx, separate))
    check_op(ctx, op, ref, P, "KFAC")


def core(ctx):
    fisher = ctx.choose("fisher", FISHERS, free=True)
    approx = ctx.choose("approx", ["expand", "reduce"], free=True)
    separate = ctx.choose("separate", [True, False], free=True)
    loss = ctx.choose("loss", LOSSES, free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    arch = ctx.choose("arch", ["mlp", "seq", "conv-pad1", "convout", "pool", "grid", "gridpool"], free=True)
    sizes = ctx.choose("batches", [[2, 1, 1], [4], [1, 3]], free=True)
    C = ctx.choose("C", [2, 1], free=True)
    P = Problem(arch, loss, red, N=sum(sizes), C=C, sizes=sizes)
    op = build(P, fisher, approx, separate)
    ref = refs.kfac_dense(P, refs.kfac_factors(P, fisher, approx, separate))
    check_op(ctx, op, ref, P, "KFAC", fmt="mat3")
    check_op(ctx, op, ref, P, "KFAC again", fmt="listvec")


def convolutions(ctx):
    """Every kind of convolution under every setting of the approximation."""
    kind = ctx.choose("convolution", list(zoo.CONV), free=True)
    approx = ctx.choose("approx", ["expand", "reduce"], free=True)
    separate = ctx.choose("separate", [True, False], free=True)
    fisher, loss = ctx.choose("fisher and loss", [("type-2", "mse"), ("empirical", "ce"), ("forward-only", "mse")], free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    P = Problem("conv-" + kind, loss, red, N=3, C=2, sizes=[2, 1])
    if outside(P, approx):
        ctx.skip()
    op = build(P, fisher, approx, separate)
    check_op(ctx, op, refs.kfac_dense(P, refs.kfac_factors(P, fisher, approx, separate)), P, "KFAC", fmt="mat3")


def exact(ctx):
    """Where the factorisation is exact, KFAC type-2 is the GGN itself."""
    loss = ctx.choose("loss", LOSSES, free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    approx = ctx.choose("approx", ["expand", "reduce"], free=True)
    separate = ctx.choose("separate", [True, False], free=True)
    arch = ctx.choose("arch", ["mlp", "linear", "deep", "nobias"], free=True)
    C = ctx.choose("C", [2, 1, 3], free=True)
    P = Problem(arch, loss, red, N=1, C=C, sizes=[1])  # one datum: no averaging error
    K = build(P, "type-2", approx, separate) @ torch.eye(P.D, dtype=P.dtype)
    G = refs.ggn(P)
    mask = torch.zeros_like(G)
    off = refs.offsets(P)
    for _, _, pos in refs.kfac_layers(P):
        ps = list(pos.values())
        for i in ps:
            for j in ps:
                if i == j or not separate:
                    mask[off[i] : off[i] + P.params[i].numel(), off[j] : off[j] + P.params[j].numel()] = 1
    zoo.expect(ctx, K, G * mask, "KFAC on a single datum vs. block-diagonal GGN")


def ragged(ctx):
    P = choose_ragged(ctx)
    fisher = ctx.choose("fisher", FISHERS, free=True)
    approx = ctx.choose("approx", ["expand", "reduce"], free=True)
    separate = ctx.choose("separate", [True, False])
    history = ctx.choose("another operator first", [False, True])
    if history:
        Q = zoo.ragged(P.arch, P.lossname, P.reduction, [2, 2], [6, 2])
        Q.model, Q.params = P.model, P.params
        build(Q, fisher, approx, separate) @ zoo.operand(P.D, 1)
    op = build(P, fisher, approx, separate)
    check_op(ctx, op, refs.kfac_dense(P, refs.kfac_factors(P, fisher, approx, separate)), P, "KFAC", fmt="mat3")


def tasks(ctx):
    P = choose_heads(ctx, mixed=False)
    fisher = ctx.choose("fisher", FISHERS, free=True)
    approx = ctx.choose("approx", ["expand", "reduce"])
    separate = ctx.choose("separate", [True, False], free=True)
    op = build(P, fisher, approx, separate, check_deterministic=ctx.choose("check_deterministic", [False, True]))
    check_op(ctx, op, refs.kfac_dense(P, refs.kfac_factors(P, fisher, approx, separate)), P, "KFAC", fmt="mat3")


def options(ctx):
    """Loss options enter through the backpropagated gradients."""
    fisher, loss = ctx.choose("fisher and loss", [("empirical", "cels"), ("empirical", "bcepw"), ("empirical", "bcesoft"),
                                                  ("empirical", "wmse"), ("type-2", "cels"), ("empirical", "cew"), ("empirical", "ceignore")], free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    if loss in ("cew", "ceignore") and red == "mean":
        ctx.skip()  # (a mean over weights, not over data)
    approx = ctx.choose("approx", ["expand", "reduce"], free=True)
    separate = ctx.choose("separate", [True, False], free=True)
    arch = ctx.choose("arch", ["mlp", "seq", "convout", "pool"], free=True)
    C = ctx.choose("C", [2, 3], free=True)
    P = extra_loss(arch, loss, red, N=3, C=C, sizes=[2, 1])
    op = build(P, fisher, approx, separate)
    ref = refs.kfac_dense(P, refs.kfac_factors(P, fisher, approx, separate))
    check_op(ctx, op, ref, P, "KFAC", fmt="mat3")


def magnitudes(ctx):
    """Gradients and inputs of any magnitude (nothing is negligible in absolute terms)."""
    fisher = ctx.choose("fisher", FISHERS, free=True)
    scale = ctx.choose("residuals", [1e-4, 1e-8, 1e-12, 1e5], free=True)
    what = ctx.choose("scaled", ["residuals", "inputs", "first mini-batch", "first layer"], free=True)
    loss = ctx.choose("loss", ["mse", "wmse"], free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    approx = ctx.choose("approx", ["expand", "reduce"], free=True)
    separate = ctx.choose("separate", [True, False], free=True)
    arch = ctx.choose("arch", ["linear", "nobias", "seq", "conv"], free=True)
    if loss == "wmse" and fisher != "empirical":
        ctx.skip()
    P = extra_loss(arch, loss, red, N=4, C=2, sizes=[2, 1, 1])
    with torch.no_grad():
        if what == "inputs":
            P.X = P.X * scale
        elif what == "first layer":  # (then all later gradients of the first layer are large or small, too)
            list(P.all_params)[-1 if arch == "nobias" else 0].mul_(scale)
        else:
            small = P.model(P.X) + scale * zoo.rand(*P.y.shape, seed=31)
            P.y = small if what == "residuals" else torch.cat([small[:2], P.y[2:]])
    P.data = zoo.split(P.X, P.y, P.sizes)
    P.key = P.key + (scale, what)
    op = build(P, fisher, approx, separate)
    ref = refs.kfac_dense(P, refs.kfac_factors(P, fisher, approx, separate))
    got = op @ torch.eye(P.D, dtype=P.dtype)
    # blocks have magnitudes of their own
    d = ref.diagonal().clamp_min(0).sqrt()
    unit = torch.where(d > 0, 1 / d, torch.ones_like(d))
    zoo.expect(ctx, unit[:, None] * got * unit, unit[:, None] * ref * unit, "KFAC", rtol=1e-3, atol=0.0)


def large(ctx):
    fisher = ctx.choose("fisher", FISHERS, free=True)
    approx = ctx.choose("approx", ["expand", "reduce"], free=True)
    separate = ctx.choose("separate", [True, False], free=True)
    P = choose_large(ctx)
    op = build(P, fisher, approx, separate)
    ref = refs.kfac_dense(P, refs.kfac_factors(P, fisher, approx, separate))
    check_op(ctx, op, ref, P, "KFAC", fmt="some")
    check_op(ctx, op, ref, P, "KFAC", fmt="listvec")


ASSUMPTIONS = ["generic data; float64 with relative tolerance 1e-8, float32 and bfloat16 with 3e-4 and 0.15",
               "every parameter belongs to exactly one Linear/Conv2d layer that is called once",
               "grouped convolutions use the channel-group average (documented)"]


def scenarios(tier):
    return [
        ("configurations", scenario, 2 if tier == "quick" else 3,
         "deviations from type-2/expand/separate/mlp/mse/mean/[2,1,1] over all options, "
         "architectures, convolution hyper-parameters, parameter selections, formats"),
        ("core", core, None, "full product fisher x approx x separate x loss x reduction x layer kind x batches x C"),
        ("convolutions", convolutions, None,
         "full product convolution kind x approx x separate x fisher/loss x reduction"),
        ("exact", exact, None, "full product where KFAC coincides with the block-diagonal GGN"),
        ("tasks", tasks, None, HEADS_TEXT + " x fisher x approx x separate"),
        ("lengths", ragged, None, RAGGED_TEXT + " x fisher x approx x separate x history"),
        ("magnitudes", magnitudes, None,
         "residuals, inputs or parameters of size 1e-12 to 1e5 x Fisher type x loss x reduction x approx x separate x layer kind"),
        ("loss options", options, None,
         "full product of losses with options x reduction x approx x separate x layer kind x C"),
        ("large problems", large, None, LARGE_TEXT),
    ]
