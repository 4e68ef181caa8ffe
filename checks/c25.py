"""C25: the activation Hessian of every feature of every model."""

import copy
from collections import OrderedDict, namedtuple

from torch.nn import functional as F

from checks.common import *
from mc import refs, zoo
from mc.world import Snapshot


class Tap:
    """Names the intermediate tensors of the reference forward pass."""

    def __init__(self, name=None):
        self.name, self.value, self.delta = name, None, None

    def __call__(self, name, z):
        if name != self.name:
            return z
        if self.delta is None:
            self.value, self.delta = z.detach(), torch.zeros_like(z).requires_grad_(True)
        return z + self.delta


# every entry: module, reference forward(module, x, tap), {feature: (layer, io, index)}


class Chain(nn.Sequential):
    pass


def m_plain(C, inplace=False):
    net = nn.Sequential(nn.Linear(3, 3), nn.ReLU(inplace=inplace), nn.Linear(3, 2), nn.Tanh(), nn.Linear(2, C))

    def fwd(m, x, t):
        z = t("z0", F.linear(x, m[0].weight, m[0].bias))
        z = t("z1", torch.where(z > 0, z, torch.zeros_like(z)))
        z = t("z2", F.linear(z, m[2].weight, m[2].bias))
        z = t("z3", torch.tanh(z))
        return t("z4", F.linear(z, m[4].weight, m[4].bias))

    feats = {("0", "output", 0): "z0", ("1", "input", 0): "z0", ("1", "output", 0): "z1", ("2", "input", 0): "z1",
             ("2", "output", 0): "z2", ("3", "input", 0): "z2", ("3", "output", 0): "z3", ("4", "input", 0): "z3",
             ("4", "output", 0): "z4", ("", "output", 0): "z4"}
    return net, fwd, feats


class Residual(nn.Module):
    def __init__(self, C, inplace):
        super().__init__()
        self.a, self.b, self.c = nn.Linear(3, 3), nn.Linear(3, 3), nn.Linear(3, C)
        self.act, self.inplace = nn.Sigmoid(), inplace

    def forward(self, x):
        h = self.a(x)
        z = self.b(self.act(h))
        if self.inplace:
            z += h
        else:
            z = z + h
        return self.c(z)


def m_residual(C, inplace=False):
    net = Residual(C, inplace)

    def fwd(m, x, t):
        h = t("h", F.linear(x, m.a.weight, m.a.bias))
        s = t("s", torch.sigmoid(h))
        z = t("z", F.linear(s, m.b.weight, m.b.bias))
        z = t("sum", z + h)
        return t("out", F.linear(z, m.c.weight, m.c.bias))

    feats = {("a", "output", 0): "h", ("act", "input", 0): "h", ("act", "output", 0): "s", ("b", "input", 0): "s",
             ("b", "output", 0): "z", ("c", "input", 0): "sum", ("c", "output", 0): "out", ("", "output", 0): "out"}
    return net, fwd, feats


Two = namedtuple("Two", ["first", "second"])


class Pair(nn.Module):
    """Two inputs, two outputs (as tuple, list or named tuple)."""

    def __init__(self, kind):
        super().__init__()
        self.l, self.kind = nn.Linear(3, 3), kind

    def forward(self, u, v):
        out = (self.l(u) * v, torch.tanh(u) + v**2)
        return {"tuple": out, "list": list(out), "named": Two(*out)}[self.kind]


class Multi(nn.Module):
    def __init__(self, C, kind, inplace):
        super().__init__()
        self.a, self.b, self.pair, self.c = nn.Linear(3, 3), nn.Linear(3, 3), Pair(kind), nn.Linear(3, C)
        self.inplace = inplace

    def forward(self, x):
        p, q = self.pair(self.a(x), torch.sin(self.b(x)))
        if self.inplace:
            p.mul_(2.0)
            q.add_(p)
            return self.c(q)
        return self.c(q + 2.0 * p)


def m_multi(C, kind="tuple", inplace=False):
    net = Multi(C, kind, inplace)

    def fwd(m, x, t):
        u = t("u", F.linear(x, m.a.weight, m.a.bias))
        v = t("v", torch.sin(t("w", F.linear(x, m.b.weight, m.b.bias))))
        lu = t("lu", F.linear(u, m.pair.l.weight, m.pair.l.bias))
        p, q = t("p", lu * v), t("q", torch.tanh(u) + v**2)
        return F.linear(t("s", q + 2 * p), m.c.weight, m.c.bias)

    feats = {("a", "output", 0): "u", ("pair", "input", 0): "u", ("pair", "input", 1): "v", ("b", "output", 0): "w",
             ("pair.l", "input", 0): "u", ("pair.l", "output", 0): "lu", ("pair", "output", 0): "p",
             ("pair", "output", 1): "q", ("c", "input", 0): "s", ("pair", "input", -1): "v"}
    return net, fwd, feats


class Inner(nn.Module):
    def __init__(self):
        super().__init__()
        self.conv = nn.Conv2d(1, 2, 2)
        self.act = nn.ELU()
        self.nested = nn.Sequential(OrderedDict(pool=nn.AvgPool2d(2), flat=nn.Flatten()))

    def forward(self, x):
        return self.nested(self.act(self.conv(x)))


class Conv(nn.Module):
    def __init__(self, C):
        super().__init__()
        self.features, self.head = Inner(), nn.Linear(2, C)

    def forward(self, x):
        return self.head(self.features(x.reshape(-1, 1, 3, 1).expand(-1, 1, 3, 3)))


def m_conv(C):
    net = Conv(C)

    def fwd(m, x, t):
        x = x.reshape(-1, 1, 3, 1).expand(-1, 1, 3, 3)
        z = t("c", F.conv2d(x, m.features.conv.weight, m.features.conv.bias))
        z = t("e", torch.where(z > 0, z, torch.exp(z) - 1))
        z = t("p", z.mean((2, 3), keepdim=True))
        z = t("f", z.flatten(1))
        return t("o", F.linear(z, m.head.weight, m.head.bias))

    feats = {("features.conv", "output", 0): "c", ("features.act", "input", 0): "c", ("features.act", "output", 0): "e",
             ("features.nested", "input", 0): "e", ("features.nested.pool", "output", 0): "p",
             ("features.nested.flat", "output", 0): "f", ("features", "output", 0): "f", ("head", "input", 0): "f",
             ("head", "output", 0): "o"}
    return net, fwd, feats


MODELS = {
    "plain": m_plain,
    "in-place": lambda C: m_plain(C, True),
    "residual": m_residual,
    "in-place sum": lambda C: m_residual(C, True),
    "tuple": m_multi,
    "list": lambda C: m_multi(C, "list"),
    "named tuple": lambda C: m_multi(C, "named"),
    "in-place named tuple": lambda C: m_multi(C, "named", True),
    "in-place tuple": lambda C: m_multi(C, "tuple", True),
    "in-place list": lambda C: m_multi(C, "list", True),
    "conv": m_conv,
}
ALL_FEATS = {k: list(f(2)[2]) for k, f in MODELS.items()}


class Lin(nn.Module):
    """A loss without curvature in the output."""

    reduction = "sum"

    def forward(self, f, y):
        return (f * y).sum()


def make_loss(loss, red, C, N):
    y = zoo.make_data("mlp", loss if loss in ("mse", "ce", "bce") else "mse", N, C)[1]
    if loss == "linear":
        return Lin(), y
    if loss == "pow4":
        return Pow4(red), y
    return zoo.make_loss(loss, red), y


def dense(net, fwd, feature, X, loss_func, y):
    t = Tap(feature)
    L = loss_func(fwd(net, X, t), y)
    (g,) = torch.autograd.grad(L, t.delta, create_graph=True)
    return refs._rows(g.reshape(-1), [t.delta]), tuple(t.delta.shape)


def products(ctx):
    from curvlinops.experimental import ActivationHessianLinearOperator

    model = ctx.choose("model", list(MODELS), free=True)
    feature = ctx.choose("feature", ALL_FEATS[model], free=True)
    loss = ctx.choose("loss", ["mse", "ce", "bce", "pow4", "linear"])
    red = ctx.choose("reduction", ["mean", "sum"])
    N = ctx.choose("N", [3, 1, 4])
    C = ctx.choose("C", [2, 1, 3])
    det = ctx.choose("check_deterministic", [False, True])
    pb = ctx.choose("progressbar", [False, True])
    frozen = ctx.choose("parameters", ["trainable", "frozen head"])
    train = ctx.choose("mode", ["train", "eval"])
    values = ctx.choose("values", ["generic", "perfect fit", "one perfect datum", "tiny residuals", "large residuals", "zero inputs",
                                   "equal data", "dead layer", "large logits"])
    if values in ("perfect fit", "one perfect datum", "tiny residuals", "large residuals") and loss not in ("mse", "pow4"):
        ctx.skip()
    net, fwd, feats = MODELS[model](C)
    net = zoo.init(net, 3)
    net.train(train == "train")
    if frozen != "trainable":
        last = list(net.parameters())[-2:]
        for p in last:
            p.requires_grad_(False)
    X = zoo.rand(N, 3, seed=11)
    loss_func, y = make_loss(loss, red, C, N)
    with torch.no_grad():
        if values == "zero inputs":
            X = torch.zeros_like(X)
        elif values == "equal data":
            X = X[:1].repeat(N, 1)
        elif values == "dead layer":
            list(net.parameters())[0].zero_()
        elif values == "large logits":
            list(net.parameters())[-1].add_(30 * torch.arange(C, dtype=F64))
        elif values in ("perfect fit", "one perfect datum"):
            k = N if values == "perfect fit" else 1
            y = torch.cat([net(X.clone())[:k], y[k:]])
        elif values != "generic":
            y = net(X.clone()) + y * (1e-9 if values == "tiny residuals" else 1e6)
    dt = ctx.choose("dtype", DTYPES)
    if dt == torch.bfloat16 and "perfect" in values:
        ctx.skip()  # (residuals consist of rounding errors)
    net, X, y = net.to(dt), X.to(dt), y.to(dt) if y.is_floating_point() else y
    up = [t.double() if t.is_floating_point() else t for t in (X, y)]  # (the same numbers, precisely)
    ref, shape = dense(copy.deepcopy(net).double(), fwd, feats[feature], up[0], loss_func, up[1])
    data = [(X, y)]
    if ctx.choose("data", ["list", "loader"]) == "loader":
        data = torch.utils.data.DataLoader(torch.utils.data.TensorDataset(X, y), batch_size=N)
    hooks = [(dict(m._forward_hooks), dict(m._forward_pre_hooks)) for m in net.modules()]
    kw = {"progressbar": True} if pb else {}
    op = ActivationHessianLinearOperator(net, loss_func, feature, data, check_deterministic=det, **kw)
    n = ref.shape[0]
    ctx.check(tuple(op.shape) == (n, n), f"shape {tuple(op.shape)}, expected {(n, n)}")
    zoo.check_product(ctx, op, ref, [shape], [shape], dtype=dt, what=f"{feature}")
    tol = {} if dt == F64 else dict(rtol=zoo.LOOSE[dt])
    again = op @ torch.eye(n, dtype=dt)
    zoo.expect(ctx, again, ref, "second product", **tol)
    zoo.expect(ctx, op.adjoint() @ torch.eye(n, dtype=dt), ref.T, "adjoint", **tol)
    if dt != torch.bfloat16:
        zoo.expect(ctx, torch.from_numpy(op.to_scipy() @ torch.eye(n, dtype=dt).numpy()), ref, "export", **tol)
    ctx.check(hooks == [(dict(m._forward_hooks), dict(m._forward_pre_hooks)) for m in net.modules()], "hooks are left behind")
    ctx.check(all(p.grad is None for p in net.parameters()), "gradients are left behind")


def several(ctx):
    """Operators of different features of one model do not interfere, also across updates."""
    from curvlinops.experimental import ActivationHessianLinearOperator

    model = ctx.choose("model", ["plain", "in-place", "tuple", "residual"], free=True)
    f1 = ctx.choose("first", ALL_FEATS[model], free=True)
    f2 = ctx.choose("second", ALL_FEATS[model], free=True)
    upd = ctx.choose("update", ["none", "parameters", "data"], free=True)
    net, fwd, feats = MODELS[model](2)
    net = zoo.init(net, 3)
    X, (loss_func, y) = zoo.rand(2, 3, seed=11), make_loss("ce", "mean", 2, 2)
    ops = [ActivationHessianLinearOperator(net, loss_func, f, [(X, y)], check_deterministic=False) for f in (f1, f2)]
    for step in range(2):
        for op, f in zip(ops, (f1, f2)):
            ref, _ = dense(net, fwd, feats[f], X, loss_func, y)
            zoo.expect(ctx, op @ torch.eye(len(ref), dtype=F64), ref, f"{f} in round {step}")
        with torch.no_grad():
            if upd == "parameters":
                for p in net.parameters():
                    p.mul_(-0.7).add_(0.1)
            elif upd == "data":
                X.mul_(-1.3).add_(0.2)


def invalid(ctx):
    from curvlinops.experimental import ActivationHessianLinearOperator

    bad = ctx.choose("argument", ["none", "layer", "kind", "case", "batches", "three batches", "empty batch list entry",
                                  "output index", "layer prefix", "number"], free=True)
    io = ctx.choose("io", ["input", "output"], free=True)
    det = ctx.choose("check_deterministic", [True, False], free=True)
    net, fwd, feats = m_plain(2)
    net = zoo.init(net, 3)
    X, (loss_func, y) = zoo.rand(4, 3, seed=11), make_loss("mse", "mean", 2, 4)
    act, data, ok = ["1", io, 0], [(X, y)], bad == "none"
    if bad == "layer":
        act[0] = "nope"
    elif bad == "layer prefix":
        act[0] = "1.relu"
    elif bad == "number":
        act[0] = "7"
    elif bad == "kind":
        act[1] = "outputs"
    elif bad == "case":
        act[1] = io.upper()
    elif bad == "batches":
        data = zoo.split(X, y, [2, 2])
    elif bad == "three batches":
        data = zoo.split(X, y, [2, 1, 1])
    elif bad == "empty batch list entry":
        data = [(X, y), (X[:0], y[:0])]
    elif bad == "output index":
        if io == "input":
            ctx.skip()
        act[2] = 1
    before = [(len(m._forward_hooks), len(m._forward_pre_hooks)) for m in net.modules()]
    try:
        op = ActivationHessianLinearOperator(net, loss_func, tuple(act), data, check_deterministic=det)
        op @ torch.ones(op.shape[1], dtype=F64)
        raised = False
    except ValueError:
        raised = True
    ctx.check(raised != ok, f"{bad}: " + ("rejected" if raised else "accepted"))
    ctx.check(before == [(len(m._forward_hooks), len(m._forward_pre_hooks)) for m in net.modules()], "hooks are left behind")


def large(ctx):
    """Many data and many columns."""
    from curvlinops.experimental import ActivationHessianLinearOperator

    N = ctx.choose("N", [40, 90], free=True)
    loss = ctx.choose("loss", LOSSES, free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    feature = ctx.choose("feature", [("0", "output", 0), ("2", "input", 0), ("4", "output", 0)], free=True)
    net, fwd, feats = m_plain(3)
    net = zoo.init(net, 3)
    X = zoo.rand(N, 3, seed=11)
    loss_func, y = make_loss(loss, red, 3, N)
    ref, shape = dense(net, fwd, feats[feature], X, loss_func, y)
    op = ActivationHessianLinearOperator(net, loss_func, feature, [(X, y)], check_deterministic=False)
    for fmt in ("many", "vec", "listmat"):
        zoo.check_product(ctx, op, ref, [shape], [shape], what=f"{feature}", fmt=fmt)


ASSUMPTIONS = ["the feature depends on trainable parameters and influences the loss",
               "float64; relative tolerance 1e-8"]


def scenarios(tier):
    q = tier == "quick"
    return [
        ("products", products, 1 if q else 3, "model x every feature; deviations over loss, reduction, sizes, options, format"),
        ("several operators", several, None, "pairs of features of one model x updates in between"),
        ("invalid", invalid, None, "argument validation"),
        ("large", large, None, "90 data, 130 columns"),
    ]
