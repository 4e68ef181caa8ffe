"""Choice points shared by several checks."""

import torch
from torch import nn

from mc import zoo
from mc.zoo import Problem, compositions

F64 = torch.float64

ARCHS = ["mlp", "deep", "nobias", "linear", "seq", "convout", "grid", "gridpool", "conv", "pool", "tied", "odd",
         "norm", "func", "thin", "gated", "embed", "bn", "strided", "chlast"]
LOSSES = ["mse", "ce", "bce"]
DTYPES = [F64, torch.float32, torch.bfloat16]
REDUCTIONS = ["mean", "sum"]

# sizes of successive mini-batches; the default is uneven with a non-trivial tail
SIZES4 = [[2, 1, 1]] + [s for s in compositions(4) if s != [2, 1, 1]]
SIZES_MORE = [[1], [2], [1, 1], [2, 3], [3, 2], [1, 4], [1, 1, 1, 1, 1], [3, 3, 1], [2, 2, 2, 1],
              [1] * 7, [5, 4], [4, 5], [1] * 12, [8, 4, 1], [33], [20, 13], [1] * 20]


class Pow4(nn.Module):
    """A custom twice differentiable loss (no closed form known to the library)."""

    def __init__(self, reduction):
        super().__init__()
        self.reduction = reduction

    def forward(self, f, y):
        z = ((f - y) ** 4 + 0.3 * f * y**2).flatten(1).sum(1)
        return z.mean() if self.reduction == "mean" else z.sum()


class Affine(nn.Module):
    """A loss that is affine in the prediction."""

    def __init__(self, reduction):
        super().__init__()
        self.reduction = reduction

    def forward(self, f, y):
        z = ((0.3 + y) * f).flatten(1).sum(1) + y.flatten(1).sum(1)
        return z.mean() if self.reduction == "mean" else z.sum()


class WeightedMSE(nn.MSELoss):
    """A subclass of a supported loss with its own definition."""

    def forward(self, f, y):
        w = torch.linspace(0.5, 2.0, f.shape[-1], dtype=f.dtype)
        z = w * (f - y) ** 2
        return z.mean() if self.reduction == "mean" else z.sum()


def choose_sizes(ctx, more=True):
    return ctx.choose("batches", SIZES4 + (SIZES_MORE if more else []))


def choose_problem(ctx, archs=ARCHS, losses=LOSSES, reductions=REDUCTIONS, Cs=(2, 1, 3, 5, 11),
                   select=True, more_sizes=True, dtypes=(F64,), seeds=(0, 1, 2, *zoo.SPECIAL), cls=Problem):
    arch = ctx.choose("arch", list(archs))
    loss = ctx.choose("loss", list(losses))
    red = ctx.choose("reduction", list(reductions))
    sizes = choose_sizes(ctx, more_sizes)
    C = ctx.choose("C", list(Cs))
    sel = None
    if select:
        sel = ctx.pick("params", zoo.param_selections(zoo.num_params(arch)))
    dt = ctx.choose("dtype", list(dtypes)) if len(dtypes) > 1 else dtypes[0]
    seed = ctx.choose("values", list(seeds)) if len(seeds) > 1 else seeds[0]
    if dt == torch.bfloat16 and str(seed).startswith("fit"):
        ctx.skip()  # (residuals consist of rounding errors)
    return cls(arch, loss, red, N=sum(sizes), C=C, sizes=sizes, dtype=dt, params=sel, seed=seed)


def choose_large(ctx, archs=tuple(zoo.LARGE), losses=LOSSES, cls=Problem, params=("all", "reversed")):
    """Problems beyond the sizes of the other scenarios."""
    arch = ctx.choose("arch", list(archs), free=True)
    loss = ctx.choose("loss", list(losses), free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    sel = zoo.param_selections(zoo.num_params(arch))[ctx.choose("params", list(params), free=True)]
    return zoo.large_problem(arch, loss, red, cls, params=sel)


LARGE_TEXT = "up to 90 data in one problem, 70 per mini-batch, 41 mini-batches, 17 classes, 40 positions, 12 layers: full product with loss x reduction x parameter order x format"


def shapes_of(params):
    return [tuple(p.shape) for p in params]


def op_kwargs(ctx, P, det_default=False):
    """Options that must not influence the represented matrix."""
    kw = {"check_deterministic": ctx.choose("check_deterministic", [det_default, not det_default])}
    if ctx.choose("num_data", ["infer", "given"]) == "given":
        kw["num_data"] = P.N
    if ctx.choose("progressbar", [False, True]):
        kw["progressbar"] = True
    if ctx.choose("unlisted parameters", ["trainable", "frozen"]) == "frozen":
        listed = {id(p) for p in P.params}
        for p in P.all_params:
            p.requires_grad_(id(p) in listed)
    return kw


def check_op(ctx, op, ref, P, what, in_shapes=None, out_shapes=None, **k):
    s = shapes_of(P.params)
    ctx.check(tuple(op.shape) == tuple(ref.shape), f"{what}: shape {tuple(op.shape)}, expected {tuple(ref.shape)}")
    zoo.check_product(ctx, op, ref, in_shapes or s, out_shapes or s, dtype=P.dtype, what=what, **k)


def choose_ragged(ctx, losses=LOSSES, reductions=REDUCTIONS):
    """Mini-batches that differ in the length (or height and width) of their inputs."""
    arch = ctx.choose("arch", list(zoo.RAGGED), free=True)
    loss = ctx.choose("loss", losses, free=True)
    red = ctx.choose("reduction", reductions, free=True)
    sizes, lengths = ctx.choose("batches and lengths", [([2, 1], [2, 5]), ([1, 2], [4, 1]), ([1, 1, 2], [3, 1, 2]), ([2], [3])], free=True)
    sel = zoo.param_selections(zoo.num_params(arch))[ctx.choose("params", ["all", "reversed", "only0"])]
    return zoo.ragged(arch, loss, red, sizes, lengths, params=sel)


RAGGED_TEXT = "inputs whose lengths differ between mini-batches: arch x loss x reduction x batches and lengths x parameters"


def choose_heads(ctx, losses=LOSSES, mixed=True):  # (not mixed: for KFAC)
    """Mini-batches that use some of the parameters only, or none of those that are differentiable at all."""
    loss = ctx.choose("loss", losses, free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    tasks = ctx.choose("tasks of the mini-batches", [["ll", "r"], ["r", "l", "rr"], ["ll", "l"], ["rr"]]
                       + [["lr", "r"], ["r", "rlr", "l"]] * mixed, free=True)
    sel = ctx.choose("params", [[0, 1, 2, 3, 4, 5, 6], [4, 5, 6], [3, 2], [6, 0, 5, 1], [2, 4]], free=True)
    used = {i for t in "".join(tasks) for i in ([0, 1, 2, 3] if t == "l" else [4, 5, 6])}
    if not mixed and not used.issuperset(sel):
        ctx.skip()  # (KFAC requires every layer to be called)
    P = zoo.heads(loss, red, tasks, params=sel)
    if ctx.choose("unlisted parameters", ["frozen", "trainable"], free=True) == "frozen":
        listed = {id(p) for p in P.params}
        for p in P.all_params:
            p.requires_grad_(id(p) in listed)
    return P


HEADS_TEXT = ("mini-batches that use some, or none, of the parameters: loss x reduction x use by each mini-batch x "
              "parameters x unlisted parameters frozen or not")


def choose_weighted(ctx, means=True):
    """Cross-entropies with class weights or ignored targets, where the risk is their sum, or one mean."""
    loss = ctx.choose("loss", ["cew", "ceignore"], free=True)
    red, sizes = ctx.choose("reduction and batches", [("sum", [2, 1, 1]), ("sum", [1, 3]), ("sum", [4])]
                            + [("mean", [4])] * means, free=True)
    arch = ctx.choose("arch", ["mlp", "seq", "convout", "func", "strided"], free=True)
    C = ctx.choose("C", [2, 3, 5], free=True)
    sel = zoo.param_selections(zoo.num_params(arch))[ctx.choose("params", ["all", "reversed", "only0"], free=True)]
    return extra_loss(arch, loss, red, N=4, C=C, sizes=sizes, params=sel)


def extra_loss(arch, loss, red, **k):
    """Problems with losses beyond the three standard ones."""
    if loss in LOSSES:
        return Problem(arch, loss, red, **k)
    base = {"affine": "mse", "pow4": "mse", "smoothl1": "mse", "cels": "ce", "bcepw": "bce", "bcesoft": "bce", "wmse": "mse", "cew": "ce", "ceignore": "ce",
            "cesoft": "ce"}[loss]
    P = Problem(arch, base, red, **k)
    P.lossname = loss if loss in ("affine", "pow4", "smoothl1") else P.lossname
    if loss == "affine":
        P.loss_func = Affine(red)
    elif loss == "pow4":
        P.loss_func = Pow4(red)
    elif loss == "wmse":
        P.loss_func = WeightedMSE(reduction=red)
    elif loss == "smoothl1":
        P.loss_func = nn.SmoothL1Loss(reduction=red, beta=0.7)
    elif loss == "cels":
        P.loss_func = nn.CrossEntropyLoss(reduction=red, label_smoothing=0.15)
    elif loss == "cew":
        P.loss_func = nn.CrossEntropyLoss(reduction=red, weight=torch.linspace(0.3, 1.9, P.C, dtype=P.dtype))
    elif loss == "ceignore":  # (some of the data, but not all)
        P.y[-1] = 1
        P.y[0] = 0
        P.loss_func = nn.CrossEntropyLoss(reduction=red, ignore_index=0)
    elif loss == "bcepw":
        P.loss_func = nn.BCEWithLogitsLoss(reduction=red, pos_weight=torch.linspace(0.4, 2.0, P.C, dtype=P.dtype))
    elif loss == "cesoft":  # class probabilities as targets
        ex = P.y.shape[1:]
        t = torch.softmax(zoo.rand(P.N, P.C, *ex, seed=56), 1).to(P.dtype)
        P.y, P.lossname = t, "cesoft"
        P.data = zoo.split(P.X, P.y, P.sizes)
    elif loss == "bcesoft":
        P.y = torch.sigmoid(zoo.rand(*P.y.shape, seed=55)).to(P.dtype)
        P.data = zoo.split(P.X, P.y, P.sizes)
    P.key = (loss,) + P.key
    return P


class Last(nn.Module):
    """A loss (of the whole data set, in one mini-batch) whose last operation is ``how``."""

    HOWS = {
        "sqrt": torch.sqrt, "exp": lambda t: torch.exp(0.3 * t), "tanh": torch.tanh, "sigmoid": torch.sigmoid,
        "relu": lambda t: torch.relu(t - 0.01), "reciprocal": lambda t: torch.reciprocal(1 + t),
        "view": lambda t: t.view(()), "index": lambda t: t.reshape(1)[0], "squeeze": lambda t: t.reshape(1, 1).squeeze(),
        "unbind": lambda t: torch.stack([t, t]).unbind()[1], "sum": lambda t: t, "log": lambda t: torch.log(1 + t),
    }

    def __init__(self, how, reduction):
        super().__init__()
        self.how, self.reduction = how, reduction

    def forward(self, f, y):
        return self.HOWS[self.how](getattr((f - y).pow(2), self.reduction)())


class Scalar(nn.Module):
    """A loss that returns the prediction of its only datum itself."""

    reduction = "sum"

    def forward(self, f, y):
        return f
