"""C15: the determinism safeguard over histories of (non-)deterministic traversals."""

import itertools

from checks.common import *
from checks.ops import *
from mc import zoo

ORDERED = ["MC"] + NO_LOSS  # mini-batches must come back in the same order
SIZES = [[1, 1, 1, 1], [2, 2, 2], [2, 1, 1], [1, 2], [3]]


class Varying:
    """A data source whose k-th traversal yields ``f(k)``."""

    def __init__(self, f, n):
        self.f, self.n, self.k = f, n, 0

    def __iter__(self):
        batches = self.f(self.k)
        self.k += 1
        return iter(batches)

    def __len__(self):
        return self.n


def deranged(n, k):
    """k-th permutation of n items (k = 0: identity), successive ones differ."""
    ps = list(itertools.permutations(range(n)))
    return ps[(k * 5) % len(ps)] if n > 3 else ps[k % len(ps)]


VARIATIONS = ["none", "batch order", "batch order, half", "reshuffle", "labels rotated", "augment all", "augment first", "augment last",
              "labels first", "labels last", "drop last", "grow", "empty tail", "once differs", "tiny noise",
              "swap labels between batches", "no data"]


def traversal(kind, P, sizes, how):
    """(function k -> mini-batches, is deterministic for unordered / for ordered operators)."""
    base = [(X.clone(), y.clone()) for X, y in P.data]
    nb = len(base)

    def noisy(k, idx, label=False, eps=0.3):
        out = []
        for i, (X, y) in enumerate(base):
            if i in idx:
                d = eps * k
                if label:
                    y = (y + k) % max(P.C, 2) if P.lossname == "ce" else (
                        (y + k) % 2 if P.lossname == "bce" else y + d)
                else:
                    X = X + d
            out.append((X, y))
        return out

    if how == "none":
        return (lambda k: base), True, True
    if how == "batch order":
        return (lambda k: [base[i] for i in deranged(nb, k)]), True, nb == 1
    if how == "batch order, half":  # every second traversal is reversed
        return (lambda k: base[::-1] if k % 2 else base), True, nb == 1
    if how == "reshuffle":  # the same data in other mini-batches
        def f(k):
            p = torch.tensor([(i + k) % P.N for i in range(P.N)])
            return zoo.split(P.X[p], P.y[p], sizes)
        # neither the sum of normalised losses nor its derivatives depend on the grouping
        return f, True, P.N == 1
    if how == "labels rotated":
        def f(k):
            p = torch.tensor([(i + k) % P.N for i in range(P.N)])
            return zoo.split(P.X, P.y[p], sizes)
        return f, False, False
    if how.startswith("augment"):
        idx = {"all": range(nb), "first": [0], "last": [nb - 1]}[how.split()[1]]
        return (lambda k: noisy(k, idx)), False, False
    if how.startswith("labels "):
        idx = {"first": [0], "last": [nb - 1]}[how.split()[1]]
        return (lambda k: noisy(k, idx, label=True)), False, False
    if how == "drop last":
        return (lambda k: base[: nb - k % 2]), False, False
    if how == "grow":
        return (lambda k: base + base[:1] * (k % 5)), False, False
    if how == "empty tail":  # a constant, but different, subset: deterministic
        return (lambda k: base[:-1]), True, True
    if how == "once differs":
        return (lambda k: noisy(1, [0]) if k == 3 else base), None, None
    if how == "tiny noise":
        return (lambda k: noisy(k, range(nb), eps=1e-10)), True, True
    if how == "swap labels between batches":
        def f(k):
            ys = [y for _, y in base]
            r = k % nb
            return [(X, y) for (X, _), y in zip(base, ys[r:] + ys[:r])]
        return f, False, False
    raise ValueError(how)


def attempt(kind, P, data, also=(), **kw):
    try:
        return make_op(kind, P, data=data, **kw)
    except (RuntimeError, *also) as e:
        return e


def judge(ctx, got, deterministic, what):
    raised = isinstance(got, Exception)
    if deterministic is True:
        ctx.check(not raised, f"{what}: rejected although deterministic: {got}")
    elif deterministic is False:
        ctx.check(raised, f"{what}: accepted although not deterministic")


def loaders(ctx):
    kind = ctx.choose("kind", ALL, free=True)
    how = ctx.choose("variation", VARIATIONS[:-1], free=True)
    sizes = [3] if kind == "ACT" else ctx.choose("batches", SIZES)
    loss = ctx.choose("loss", LOSSES)
    red = ctx.choose("reduction", REDUCTIONS)
    arch = ctx.choose("arch", ["mlp", "nobias"])
    given = ctx.choose("num_data", ["infer", "given"])
    check = ctx.choose("check", [True, False])
    nb = len(sizes)
    if how in ("drop last", "empty tail", "grow") and (nb == 1 or kind == "ACT"):
        ctx.skip()
    if how in ("swap labels between batches",) and (nb == 1 or len(set(sizes)) > 1):
        ctx.skip()
    P = Problem(arch, loss, red, N=sum(sizes), C=2, sizes=sizes, seed=3)
    if how == "labels rotated" or how.startswith("swap labels"):
        # labels with distinct effects: rotating them must change the risk
        if loss == "bce":
            P.y = torch.zeros_like(P.y)
            P.y[0, 0] = 1.0
        elif loss == "ce":
            P.y = torch.zeros_like(P.y)
            P.y[0] = 1
        P.data = zoo.split(P.X, P.y, sizes)
        if P.N == 1:
            ctx.skip()
    f, unordered, ordered = traversal(kind, P, sizes, how)
    kw = {"num_data": P.N} if given == "given" else {}
    varies = how in ("drop last", "grow")
    if (varies and not check) or (how == "empty tail" and kw):
        ctx.skip()
    # (a number of data that varies may also be noticed, as ValueError, before the safeguard runs)
    got = attempt(kind, P, Varying(f, nb), (ValueError,) if varies else (), check_deterministic=check, **kw)
    det = ordered if kind in ORDERED or (kind == "ACT" and how == "reshuffle") else unordered
    if not check:
        ctx.check(not isinstance(got, RuntimeError), f"checked although switched off: {got}")
        return
    judge(ctx, got, det, f"{kind}, {how}")
    if det and how in ("none", "tiny noise", "batch order") and kind not in ("MC", "KFAC-mc"):
        # an accepted operator represents the matrix of the data
        ref = reference(kind, P)
        M = zoo.operand(got.shape[1], 2)
        if ref is not None and kind != "ACT":
            zoo.expect(ctx, got @ M, ref @ M, "product of the accepted operator", rtol=1e-6, atol=1e-8)


# ---------------------------------------------------------------- user code that varies


class Noise(nn.Module):
    """A layer that misbehaves as a function of the number of calls."""

    def __init__(self, how):
        super().__init__()
        self.how, self.calls = how, 0
        self.frozen = None

    def forward(self, x):
        k = self.calls
        self.calls += 1
        if self.how == "clean":
            return x
        if self.how == "drift":
            return x * (1 + 0.07 * (k + 1))
        if self.how == "tiny":
            return x * (1 + 1e-11 * k)
        if self.how == "train only":
            return x * (1 + 0.07 * (k + 1)) if self.training else x
        if self.how == "batch statistics":  # like normalisation in training mode
            return x - 0.5 * x.mean(0, keepdim=True)
        if self.how == "running":  # what one sees depends on what came before
            if self.frozen is None:
                self.frozen = torch.zeros_like(x.mean(0))
            self.frozen = 0.5 * self.frozen + 0.5 * x.detach().mean(0)
            return x + 0.5 * self.frozen
        if self.how == "curvature":  # same value and derivative, other second derivative
            return x + 0.4 * (k + 1) * (x - x.detach()) ** 2
        if self.how == "flip":
            return x if k % 2 else -x
        # same value, but another derivative in every call
        s = torch.linspace(1.0, -1.0, x.shape[1], dtype=x.dtype)
        if self.how == "sign":
            return x if k % 2 else 2 * x.detach() - x
        if self.how == "opposite slopes":  # cancel in the sum over the outputs
            return x + 0.3 * (k + 1) * s * (x - x.detach())
        raise ValueError(self.how)


NOISES = ["clean", "drift", "tiny", "train only", "batch statistics", "running", "curvature"]


def models(ctx):
    kind = ctx.choose("kind", ALL, free=True)
    how = ctx.choose("layer", NOISES, free=True)
    mode = ctx.choose("mode", ["train", "eval"], free=True)
    data = ctx.choose("loader", ["fixed", "batch order", "reshuffle"], free=True)
    loss = ctx.choose("loss", LOSSES)
    red = ctx.choose("reduction", REDUCTIONS)
    sizes = [4] if kind == "ACT" else ctx.choose("batches", [[2, 2], [2, 1, 1], [1, 2]])
    P = Problem("mlp", loss, red, N=sum(sizes), C=2, sizes=sizes, seed=2)
    P.model = nn.Sequential(P.model[0], P.model[1], P.model[2], Noise(how))
    P.model.train(mode == "train")
    P.key = P.key + (how,)
    f, unordered, ordered = traversal(kind, P, sizes, {"fixed": "none"}.get(data, data))
    got = attempt(kind, P, Varying(f, len(sizes)), check_deterministic=True)
    det = ordered if kind in ORDERED or (kind == "ACT" and data == "reshuffle") else unordered
    if how in ("drift", "running") or (how == "train only" and mode == "train"):
        det = False
    elif how == "batch statistics" and data == "reshuffle" and len(sizes) > 1:
        det = False
    elif how == "curvature":
        # only operators that see second derivatives of the model can (and must) notice
        det = det and kind not in ("H", "H-blocks", "ACT")
    if kind in ORDERED and how == "batch statistics" and data != "fixed" and len(sizes) > 1:
        det = False
    judge(ctx, got, det, f"{kind}, layer {how}, {mode}, loader {data}")


def slopes(ctx):
    """Only derivatives vary, such that sums, norms or products of them may agree."""
    kind = ctx.choose("kind", [k for k in ALL if k not in ("ACT", "JT", "J")], free=True)
    how = ctx.choose("layer", ["sign", "opposite slopes"], free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    sizes = ctx.choose("batches", [[4], [2, 2], [3, 1], [1]], free=True)
    offset = ctx.choose("residual", ["constant", "generic"], free=True)
    shape = ctx.choose("model", ["linear", "mlp"], free=True)
    if how == "sign" and len(sizes) % 2 == 0:
        ctx.skip()  # every traversal sees the same sequence
    P = Problem(shape, "mse", red, N=sum(sizes), C=2, sizes=sizes, seed=2)
    if offset == "constant":
        P.y = P.model(P.X).detach() - 1.0
        P.data = zoo.split(P.X, P.y, sizes)
    P.model = nn.Sequential(*P.model, Noise(how))
    P.key = P.key + (how, offset)
    got = attempt(kind, P, P.data, check_deterministic=True)
    judge(ctx, got, False, f"{kind}, layer {how}")


def predictions(ctx):
    """Only predictions vary: losses, gradients and curvature agree."""
    kind = ctx.choose("kind", [k for k in ORDERED if k != "ACT"], free=True)
    how = ctx.choose("layer", ["flip", "clean"], free=True)
    sizes = ctx.choose("batches", [[4], [3, 1, 2], [1], [1, 1, 1]], free=True)
    arch = ctx.choose("model", ["linear", "mlp", "seq"], free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    zero = ctx.choose("targets", ["zero", "generic"], free=True)
    P = Problem(arch, "mse", red, N=sum(sizes), C=2, sizes=sizes, seed=2)
    if zero == "zero":
        P.y = torch.zeros_like(P.y)
        P.data = zoo.split(P.X, P.y, sizes)
    P.model = nn.Sequential(P.model, Noise(how))
    P.key = P.key + (how, zero)
    got = attempt(kind, P, P.data, check_deterministic=True)
    judge(ctx, got, how == "clean", f"{kind}, layer {how}")


def losses(ctx):
    """A loss that changes from call to call."""
    kind = ctx.choose("kind", [k for k in ALL if k not in NO_LOSS], free=True)
    how = ctx.choose("loss varies", ["never", "drift", "last batch", "first batch", "opposite", "tiny"], free=True)
    loss = ctx.choose("loss", LOSSES)
    sizes = [3] if kind == "ACT" else ctx.choose("batches", [[1, 1, 1], [2, 1]])
    P = Problem("mlp", loss, "mean", N=3, C=2, sizes=sizes, seed=2)
    nb = len(sizes)
    count = {}

    def hook(m, inp, out):
        # which mini-batch is this? (by its labels' values)
        y = inp[1]
        i = next((j for j, (_, yy) in enumerate(P.data) if yy.shape == y.shape and torch.equal(yy, y)), None)
        if i is None:  # labels that were sampled by the operator
            return out
        k = count[i] = count.get(i, -1) + 1
        if how == "drift" or (how == "last batch" and i == nb - 1) or (how == "first batch" and i == 0):
            return out * (1 + 0.1 * (k + 1))
        if how == "tiny":
            return out * (1 + 1e-11 * k)
        if how == "opposite":
            return out + (1 if i == 0 else -1) * 0.1 * k
        return out

    if loss != "mse" and nb > 1:  # make the labels of the mini-batches distinct
        P.y = {"ce": torch.tensor([0, 1, 0]), "bce": torch.tensor([[0, 1], [1, 0], [1, 1]]).to(P.dtype)}[loss]
        if loss == "ce" and sizes == [1, 1, 1]:
            ctx.skip()
        P.data = zoo.split(P.X, P.y, sizes)
    P.loss_func.register_forward_hook(hook)
    if how == "opposite" and nb != 2:  # (their weights, 2/3 and 1/3, do not cancel)
        ctx.skip()
    got = attempt(kind, P, P.data, check_deterministic=True)
    det = how in ("never", "tiny")
    judge(ctx, got, det, f"{kind}, loss varies: {how}")


def mappings(ctx):
    """Non-determinism in mapping-like inputs."""
    from collections import UserDict

    kind = ctx.choose("kind", [k for k in ALL if k != "ACT"], free=True)
    how = ctx.choose("variation", ["none", "augment last", "augment first", "batch order", "labels last", "entry"], free=True)
    cls = ctx.choose("mapping", [dict, UserDict], free=True)
    loss = ctx.choose("loss", LOSSES)
    P = Problem("mlp", loss, "mean", N=4, C=2, sizes=[2, 1, 1], seed=3)
    # "entry": the traversals only differ in an entry that this model does not look at
    pos = ctx.choose("position", ["first", "middle", "last"], free=True)
    f, unordered, ordered = traversal(kind, P, [2, 1, 1], "none" if how == "entry" else how)
    inner = P.model
    P.model = zoo.DictWrap(inner)
    if how == "entry":
        ordered = False

    def box(X, k):
        z = torch.full((X.shape[0], 2), float(k) if how == "entry" else 1.0)
        e = [("meta", "text"), ("x", X)]
        e.insert({"first": 0, "middle": 1, "last": 2}[pos], ("z", z))
        return cls(e)

    got = attempt(kind, P, Varying(lambda k: [(box(X, k), y) for X, y in f(k)], 3),
                  check_deterministic=True, batch_size_fn=lambda X: X["x"].shape[0])
    judge(ctx, got, ordered if kind in ORDERED else unordered, f"{kind}, mapping, {how}")


ASSUMPTIONS = ["variations are either far above the safeguard's tolerance or far below round-off",
               "the data source's k-th traversal is a function of k; every traversal differs from the previous one",
               "a variation that is only visible in a single traversal is not judged (the safeguard compares two)"]


def scenarios(tier):
    b = 2 if tier == "quick" else None
    return [
        ("loaders", loaders, b, "operator x how successive traversals differ; loss, reduction, batches, num_data"),
        ("models", models, b, "operator x misbehaving layer x mode x loader"),
        ("slopes", slopes, None, "full product operator x how only derivatives vary x reduction x batches x residual"),
        ("predictions", predictions, None, "operators that demand an order x model whose predictions change sign x batches x model x targets"),
        ("losses", losses, b, "operator x loss that changes from call to call"),
        ("mappings", mappings, b, "operator x mapping type x variation"),
    ]
