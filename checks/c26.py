"""C26: gradient and loss of an operator are those of the empirical risk."""

from checks.common import *
from checks.ops import ALL, KFACS, make_op
from mc import refs, zoo

KINDS = ["H", "H-blocks", "GGN", "EF", "MC", "KFAC", "KFAC-emp", "KFAC-fwd", "KFAC-mc", "KFAC-joint"]
LOSSFUL = {"H": LOSSES + ["pow4", "smoothl1", "cels", "bcepw", "bcesoft", "cesoft"], "GGN": LOSSES + ["pow4", "smoothl1", "cels", "bcepw", "cesoft"],
           "EF": LOSSES + ["cels", "bcepw", "bcesoft"]}


def judge(ctx, op, P, what="gradient"):
    """The operator's gradient and loss; returns copies."""
    g, L = op.gradient_and_loss()
    want, wantL = refs.gradient(P)
    ctx.check(isinstance(g, list) and len(g) == len(P.params), f"{what}: one entry per parameter expected")
    for a, p in zip(g, P.params):
        ctx.check(a.shape == p.shape and a.dtype == p.dtype, f"{what}: {tuple(a.shape)} instead of {tuple(p.shape)}")
        ctx.check(not a.requires_grad, f"{what} is attached to a graph")
        ctx.check(a is not p and (p.grad is None or a.data_ptr() != p.grad.data_ptr()) and a.data_ptr() != p.data_ptr(),
                  f"{what} shares memory with the model")
    ctx.check(L.shape == () and not L.requires_grad, f"{what}: the loss must be a detached number")
    tol = {} if P.dtype == F64 else dict(rtol=0.1 * zoo.LOOSE[P.dtype], atol=0.1 * zoo.LOOSE[P.dtype])
    ctx.check(L.dtype == P.dtype, f"the loss has type {L.dtype}")
    zoo.expect(ctx, zoo.flat(g), want, what, **tol)
    zoo.expect(ctx, L, wantL, "loss", **tol)
    return g, L


def configurations(ctx):
    kind = ctx.choose("kind", KINDS, free=True)
    archs = ["mlp", "linear", "nobias", "deep", "conv", "seq", "pool", "strided", "chlast"] if kind in KFACS else ARCHS
    arch = ctx.choose("arch", archs)
    loss = ctx.choose("loss", LOSSFUL.get(kind, LOSSES))
    red = ctx.choose("reduction", REDUCTIONS)
    sizes = choose_sizes(ctx)
    C = ctx.choose("C", [2, 1, 3, 5])
    sel = ctx.pick("params", zoo.param_selections(zoo.num_params(arch)))
    if kind in ("KFAC-joint",) and sel is not None:
        ctx.skip()
    if C == 1 and loss == "ce" and kind.startswith("KFAC"):
        ctx.skip()
    dt = ctx.choose("dtype", DTYPES)
    P = extra_loss(arch, loss, red, N=sum(sizes), C=C, sizes=sizes, params=sel, dtype=dt)
    kw = op_kwargs(ctx, P)
    data = P.data
    if ctx.choose("container", ["list", "tuple"]) == "tuple":
        data = tuple(data)
    op = make_op(kind, P, data, **kw)
    history = ctx.choose("before", ["nothing", "product", "gradient", "enabled autograd", "no_grad", "stored .grad", "zero .grad"])
    if history == "product":
        op @ torch.ones(P.D, dtype=P.dtype)
    elif history == "gradient":
        op.gradient_and_loss()
    elif history == "stored .grad":
        for p in P.params:
            p.grad = torch.full_like(p, 5.0)
    elif history == "zero .grad":
        for p in P.params:
            p.grad = torch.zeros_like(p)
    if history == "no_grad":
        with torch.enable_grad():
            g, L = judge(ctx, op, P)
    else:
        g, L = judge(ctx, op, P)
    if history == "stored .grad":
        ctx.check(all(bool((p.grad == 5.0).all()) for p in P.params), "stored gradients changed")
    elif history == "zero .grad":
        ctx.check(all(bool((p.grad == 0.0).all()) for p in P.params), "stored gradients changed")
    else:
        ctx.check(all(p.grad is None for p in P.all_params), "gradients are left behind")
    # results belong to the caller
    keep = [a.clone() for a in g], L.clone()
    for a in g:
        a.mul_(-2.0)
    L.mul_(3.0)
    g2, L2 = judge(ctx, op, P, "second gradient")
    zoo.expect(ctx, zoo.flat(g2), zoo.flat(keep[0]), "repetition", 1e-12)
    ctx.check(zoo.close(L2, keep[1], 1e-12), "repetition of the loss")


def core(ctx):
    kind = ctx.choose("kind", ["H", "GGN", "EF", "MC", "KFAC"], free=True)
    loss = ctx.choose("loss", LOSSES, free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    sizes = ctx.choose("batches", SIZES4, free=True)
    arch = ctx.choose("arch", ["mlp", "seq"], free=True)
    C = ctx.choose("C", [2, 3], free=True)
    P = Problem(arch, loss, red, N=4, C=C, sizes=sizes)
    judge(ctx, make_op(kind, P), P)


def updates(length):
    """Histories of updates, products and gradients."""
    def fn(ctx):
        kind = ctx.choose("kind", ["H", "GGN", "EF", "MC", "KFAC", "KFAC-mc"], free=True)
        loss = ctx.choose("loss", ["ce", "mse", "bce"])
        P = Problem("mlp", loss, "mean", N=3, C=2, sizes=[2, 1])
        op = make_op(kind, P)
        kept = []
        for step in range(length):
            what = ctx.choose(f"step {step}", ["parameters", "inputs", "gradient", "product", "export", "adjoint"], free=True)
            with torch.no_grad():
                if what == "parameters":
                    for p in P.all_params:
                        p.mul_(0.8).add_(0.05)
                elif what == "inputs":
                    for X, _ in P.data:
                        X.mul_(-0.9)
                    P.X = torch.cat([X for X, _ in P.data])
            if what == "gradient":
                refs._memo.clear()
                g, L = judge(ctx, op, P, f"step {step}")
                kept += [(t, t.clone()) for t in [*g, L]]
            elif what == "product":
                op @ torch.ones(P.D, 2, dtype=P.dtype)
            elif what == "export":
                op.to_scipy() @ torch.ones(P.D, dtype=P.dtype).numpy()
            elif what == "adjoint":
                op = op.adjoint()
        refs._memo.clear()
        judge(ctx, op, P, "last gradient")
        refs._memo.clear()
        ctx.check(all(torch.equal(a, b) for a, b in kept), "a gradient or loss returned earlier has changed")
    return fn


def lossless(ctx):
    import curvlinops as c

    kind = ctx.choose("kind", ["J", "JT", "J-adj", "JT-adj", "H", "GGN"], free=True)
    arch = ctx.choose("arch", ["mlp", "seq"], free=True)
    P = Problem(arch, "mse", "mean", N=2, C=2, sizes=[1, 1])
    if kind in ("H", "GGN"):
        f = c.HessianLinearOperator if kind == "H" else c.GGNLinearOperator
        op = f(P.model, None, P.params, P.data, check_deterministic=False)
    else:
        op = make_op(kind, P)
    try:
        op.gradient_and_loss()
    except ValueError:
        return
    ctx.fail("an operator without loss returned a gradient")


def lengths(ctx):
    kind = ctx.choose("kind", ["H", "GGN", "EF", "MC", "KFAC", "KFAC-joint"], free=True)
    judge(ctx, make_op(kind, P := choose_ragged(ctx)), P)


def tasks(ctx):
    kind = ctx.choose("kind", ["H", "GGN", "EF", "MC", "KFAC", "KFAC-joint"], free=True)
    P = choose_heads(ctx, mixed=not kind.startswith("KFAC"))
    judge(ctx, make_op(kind, P), P)


def weighted(ctx):
    """Risks whose terms have weights of their own."""
    kind = ctx.choose("kind", ["H", "GGN", "EF"], free=True)
    judge(ctx, make_op(kind, P := choose_weighted(ctx)), P)


def last_operation(ctx):
    """Losses that end in operations whose result autograd needs, or whose result is a view."""
    kind = ctx.choose("kind", ["H", "GGN", "H-blocks"], free=True)
    how = ctx.choose("last operation", [*Last.HOWS, "none"], free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    det = ctx.choose("check_deterministic", [True, False], free=True)
    arch = ctx.choose("arch", ["mlp", "func", "seq"])
    if how == "none":  # the loss is the prediction
        if red == "mean" or kind == "GGN":
            ctx.skip()
        P = Problem("mlp", "mse", red, N=1, C=1, sizes=[1])
        P.loss_func = Scalar()
        inner = P.model
        P.data = [(P.X[0], P.y[0, 0])]
        P.model = lambda x: inner(x).squeeze()
    else:
        P = Problem(arch, "mse", red, N=3, C=2, sizes=[3])
        P.loss_func = Last(how, red)
    op = make_op(kind, P, check_deterministic=det, batch_size_fn=(lambda x: 1) if how == "none" else None)
    (X, y), = P.data
    L = P.loss_func(P.model(X), y)
    want, want_loss = torch.autograd.grad(L, P.params), L.detach()
    for rep in range(2):
        g, loss = op.gradient_and_loss()
        zoo.expect(ctx, zoo.flat(g), zoo.flat(want), "gradient")
        zoo.expect(ctx, loss, want_loss, "loss")
        for _, out, loss, g in op.data_prediction_loss_gradient():
            zoo.expect(ctx, out.detach(), P.model(X).detach(), "prediction")
            zoo.expect(ctx, zoo.flat(g), zoo.flat(want), "gradient of the mini-batch")
            zoo.expect(ctx, loss, want_loss, "loss of the mini-batch")
            ctx.check(not loss.requires_grad, "the loss must be detached")


def large(ctx):
    kind = ctx.choose("kind", ["H", "EF", "KFAC-mc"], free=True)
    P = choose_large(ctx)
    judge(ctx, make_op(kind, P), P)


def batches(length):
    """The iterator over mini-batches: histories of steps of two iterators, products and updates."""
    def fn(ctx):
        kind = ctx.choose("kind", ["H", "GGN", "EF", "MC", "KFAC", "J", "JT", "ACT"], free=True)
        loss = ctx.choose("loss", LOSSES)
        red = ctx.choose("reduction", REDUCTIONS)
        sizes = ctx.choose("batches", [[2, 1], [1, 2, 1], [3]])
        arch = ctx.choose("arch", ["mlp", "seq"])
        bar = ctx.choose("progressbar", [False, True])
        if kind == "ACT" and arch == "seq":
            ctx.skip()
        P = Problem(arch, loss, red, N=sum(sizes), C=2, sizes=[sum(sizes)] if kind == "ACT" else sizes)
        op = make_op(kind, P, progressbar=bar)
        its = {}
        kept = []
        for step in range(length):
            what = ctx.choose(f"step {step}", ["A", "B", "product", "gradient", "parameters", "abandon A"], free=True)
            if what == "product":
                op @ torch.ones(op.shape[1], dtype=P.dtype)
            elif what == "gradient" and kind not in ("J", "JT", "ACT"):
                op.gradient_and_loss()
            elif what == "parameters":
                with torch.no_grad():
                    for p in P.all_params:
                        p.mul_(0.8).add_(0.05)
            elif what == "abandon A":
                if "A" in its:
                    its.pop("A")[0].close()
            elif what in ("A", "B"):
                if what not in its:
                    its[what] = [op.data_prediction_loss_gradient(), 0]
                it, k = its[what]
                if k == len(P.data):
                    ctx.check(next(it, None) is None, "more mini-batches than the data have")
                    continue
                its[what][1] += 1
                (X, y), out, L, g = next(it)
                X0, y0 = P.data[k]
                ctx.check(torch.equal(X, X0) and torch.equal(y, y0), f"mini-batch {k} is not the loader's")
                want = P.model(X0)
                zoo.expect(ctx, out.detach(), want.detach(), "prediction", rtol=1e-12)
                if kind in ("J", "JT"):
                    ctx.check(L is None and g is None, "loss or gradient without loss function")
                    continue
                w = len(y0) / P.N if red == "mean" else 1.0
                wantL = P.loss_func(want, y0) * w
                wrt = list(P.params) if kind != "ACT" else []
                ctx.check(not L.requires_grad and L.shape == (), "the loss must be a detached number")
                zoo.expect(ctx, L, wantL.detach(), "loss of a mini-batch")
                if kind != "ACT":
                    ctx.check(len(g) == len(wrt) and all(a.shape == p.shape and not a.requires_grad for a, p in zip(g, wrt)),
                              "one detached entry per parameter expected")
                    zoo.expect(ctx, zoo.flat(g), zoo.flat(torch.autograd.grad(wantL, wrt)), "gradient of a mini-batch")
                    kept += [(t, t.clone()) for t in [*g, L]]
        ctx.check(all(p.grad is None for p in P.all_params), "gradients are left behind")
        ctx.check(all(torch.equal(a, b) for a, b in kept), "a gradient or loss yielded earlier has changed")
    return fn


ASSUMPTIONS = ["float64; relative tolerance 1e-8", "the loss function has a reduction attribute (mean or sum)"]


def scenarios(tier):
    q = tier == "quick"
    return [
        ("configurations", configurations, 1 if q else 2,
         "operator x deviations over architecture, loss, reduction, batches, C, parameters, options, history"),
        ("core", core, None, "full product operator x loss x reduction x batches x architecture x C"),
        ("updates", updates(3 if q else 4), 0 if q else 1, "all histories of 3 (4) updates and operations, then a gradient"),
        ("tasks", tasks, None, "operator x " + HEADS_TEXT),
        ("lengths", lengths, None, "operator x " + RAGGED_TEXT),
        ("class weights", weighted, None, "class weights or ignored targets x operator x reduction and batches x arch x C x parameters"),
        ("last operation", last_operation, None, "operator x last operation of the loss x reduction x determinism check x arch"),
        ("mini-batches", batches(4 if q else 5), 0 if q else 1,
         "all histories of 4 (5) steps of two iterators over mini-batches, products, gradients, updates and abandoned iterators"),
        ("lossless", lossless, None, "operators without loss"),
        ("large problems", large, None, LARGE_TEXT),
    ]
