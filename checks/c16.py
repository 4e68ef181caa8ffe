"""C16: only the data set counts, not its split, its container, or options."""

from collections import UserDict

from torch.utils.data import DataLoader, IterableDataset, Subset, TensorDataset

from checks.common import *
from checks.ops import *
from mc import refs, zoo

SUMS = [k for k in ALL if k not in ("MC", "KFAC-mc", "ACT") + tuple(NO_LOSS)]
PERMS = {"identity": lambda n: list(range(n)), "reversed": lambda n: list(range(n))[::-1],
         "rotated": lambda n: list(range(1, n)) + [0]}


def partitions(ctx):
    kind = ctx.choose("kind", SUMS + NO_LOSS, free=True)
    N = ctx.choose("N", [4, 3], free=True)
    sizes = ctx.choose("batches", compositions(N), free=True)
    perm = PERMS[ctx.choose("data order", list(PERMS), free=True)](N)
    loss = ctx.choose("loss", LOSSES)
    red = ctx.choose("reduction", REDUCTIONS)
    arch = ctx.choose("arch", ["mlp", "deep", "conv", "seq", "pool", "convout", "tied", "odd", "norm", "branch", "embed", "bn", "strided", "chlast"])
    C = ctx.choose("C", [2, 1, 3])
    if kind in KFACS + INVS and arch in ("tied", "odd", "norm", "embed", "bn", "seq", "convout", "pool"):
        ctx.skip()
    dt = ctx.choose("dtype", [F64, torch.float32])
    P = Problem(arch, loss, red, N=N, C=C, sizes=[N], dtype=dt)
    p = torch.tensor(perm)
    data = zoo.split(P.X[p], P.y[p], sizes)
    op = make_op(kind, P, data=data, check_deterministic=ctx.choose("check", [False, True]))
    ref = reference(kind, P)
    if kind in NO_LOSS:
        T = ref.shape[0] // N if kind in ("J", "JT-adj") else ref.shape[1] // N
        rows = [i * T + t for i in perm for t in range(T)]
        ref = ref[rows] if kind in ("J", "JT-adj") else ref[:, rows]
    M = zoo.operand(op.shape[1], 2)
    tol = dict(rtol=1e-7, atol=1e-9)
    if dt != F64:
        tol = dict(rtol=2e-2 if kind in INVS else 1e-3, atol=1e-5 * float(ref.abs().max() * M.abs().max()))
    zoo.expect(ctx, (op @ M.to(dt)).to(F64), ref @ M, f"{kind}, batches {sizes}", **tol)


class Again:
    """Re-iterable without length, lazily produced."""

    def __init__(self, batches):
        self.batches = batches

    def __iter__(self):
        return ((X.clone(), y.clone()) for X, y in self.batches)


class Buffer:
    """Produces every mini-batch in the same piece of memory."""

    def __init__(self, batches):
        self.batches = batches
        self.X = max((X for X, _ in batches), key=len).clone()
        self.y = max((y for _, y in batches), key=len).clone()

    def __len__(self):
        return len(self.batches)

    def __iter__(self):
        for X, y in self.batches:
            self.X[: len(X)].copy_(X)
            self.y[: len(y)].copy_(y)
            yield self.X[: len(X)], self.y[: len(y)]
            self.X[: len(X)].fill_(0)
            self.y[: len(y)].fill_(0)


class Extra(UserDict):
    """Mapping with methods of its own."""

    def size(self):
        return len(self["x"])


class Embed(nn.Module):
    """Integer inputs."""

    def __init__(self, C):
        super().__init__()
        self.emb = nn.Embedding(4, 3)
        self.l1 = nn.Linear(3, 3)
        self.l2 = nn.Linear(3, C)

    def forward(self, x):
        return self.l2(torch.tanh(self.l1(self.emb(x))))


CONTAINERS = ["list", "tuples", "lists", "iterable", "loader", "dataset", "shuffled", "dict", "UserDict", "Extra",
              "dict+loader", "mixed mapping", "buffer", "drop last", "subset", "sampler", "batch sampler", "iterable dataset"]


class Stream(IterableDataset):
    """A data set that is only iterable."""

    def __init__(self, X, y):
        self.X, self.y = X, y

    def __iter__(self):
        return iter(zip(self.X, self.y))


def loader(how, P, B):
    """Loaders whose data set holds more than what they yield."""
    n = P.N
    more = TensorDataset(torch.cat([P.X, P.X.flip(0)]), torch.cat([P.y, P.y.flip(0)]))
    if how == "drop last":
        return DataLoader(Subset(more, range(2 * n - 1)), batch_size=n, drop_last=True)
    if how == "subset":
        return DataLoader(Subset(more, range(n)), batch_size=B)
    if how == "sampler":
        return DataLoader(more, sampler=list(range(n)), batch_size=B)
    if how == "batch sampler":
        return DataLoader(more, batch_sampler=[list(range(i, min(i + B, n))) for i in range(0, n, B)])
    return DataLoader(Stream(P.X, P.y), batch_size=B)


def containers(kinds):
    def scenario(ctx):
        kind = ctx.choose("kind", kinds, free=True)
        how = ctx.choose("container", CONTAINERS, free=True)
        num = ctx.choose("num_data", ["infer", "given"], free=True)
        bar = ctx.choose("progressbar", [False, True], free=True)
        check = ctx.choose("check", [False, True], free=True)
        loss = ctx.choose("loss", LOSSES)
        red = ctx.choose("reduction", REDUCTIONS)
        arch = ctx.choose("arch", ["mlp", "embed", "conv", "nobias"])
        sizes = [3] if kind == "ACT" else ctx.choose("batches", [[2, 2, 1], [2, 1], [1, 1]])
        if kind == "ACT" and (how.startswith(("dict", "Extra", "User", "mixed")) or arch in ("embed", "conv")):
            ctx.skip()
        P = Problem("mlp" if arch == "embed" else arch, loss, red, N=sum(sizes), C=2, sizes=sizes)
        if arch == "embed":
            P.model = zoo.init(Embed(2))
            P.all_params = list(P.model.parameters())[1:]
            P.params = P.all_params
            P.index = list(range(sum(p.numel() for p in P.params)))
            P.D = len(P.index)
            P.X = torch.arange(P.N) % 4
            P.data = zoo.split(P.X, P.y, sizes)
            P.key = ("embed",) + P.key
        ref = reference(kind, P)
        plain = P.data
        twin = None
        if ref is None:  # Monte-Carlo kinds: the same mini-batches in a list
            twin = make_op(kind, P)
        kw = {}
        B = max(sizes)
        if how == "tuples":
            data = tuple(plain)
        elif how == "lists":
            data = [[X, y] for X, y in plain]
        elif how == "iterable":
            data = Again(plain)
        elif how == "buffer":  # (a Jacobian's product needs nothing but the inputs)
            data = Buffer(plain)
        elif how == "loader":
            data = DataLoader(TensorDataset(P.X, P.y), batch_size=B)
        elif how == "dataset":
            data = DataLoader([(x, y) for x, y in zip(P.X, P.y)], batch_size=B)
        elif how == "shuffled":
            if kind in NO_LOSS + ["MC", "KFAC-mc", "ACT"]:
                ctx.skip()
            g = torch.Generator().manual_seed(7)
            data = DataLoader(TensorDataset(P.X, P.y), batch_size=B, shuffle=True, generator=g)
        elif how == "list":
            data = plain
        elif how in ("drop last", "subset", "sampler", "batch sampler", "iterable dataset"):
            if how == "drop last" and twin is not None:
                ctx.skip()
            data = loader(how, P, B)
        else:
            kw["batch_size_fn"] = lambda X: X["x"].shape[0]
            P_model = P.model
            P.model = zoo.DictWrap(P_model)
            if kind == "ACT":
                ctx.skip()
            if how == "dict+loader":
                data = DataLoader([({"x": x, "id": i}, y) for i, (x, y) in enumerate(zip(P.X, P.y))], batch_size=B)
            else:
                cls = {"dict": dict, "UserDict": UserDict, "Extra": Extra}.get(how)
                classes = [cls] * len(plain) if cls else [dict, UserDict, Extra]
                if how == "Extra":
                    kw["batch_size_fn"] = Extra.size
                data = [(c({"x": X, "unused": None, "text": "abc"}), y) for c, (X, y) in zip(classes, plain)]
            pass
        if num == "given":
            kw["num_data"] = P.N
        op = make_op(kind, P, data=data, progressbar=bar, check_deterministic=check, **kw)
        M = zoo.operand(op.shape[1], 2)
        want = ref @ M if ref is not None else twin @ M
        zoo.expect(ctx, op @ M, want, f"{kind}, {how}", rtol=1e-7, atol=1e-9)
        if kind not in NO_LOSS + INVS + ["ACT"]:
            g, L = op.gradient_and_loss()
            total = P.loss_func(P.model(P.X if not kw.get("batch_size_fn") else {"x": P.X}), P.y)
            want = torch.autograd.grad(total, P.params)
            zoo.expect(ctx, zoo.flat(g), zoo.flat(want), "gradient", rtol=1e-7, atol=1e-9)
            zoo.expect(ctx, L, total.detach(), "loss", rtol=1e-7, atol=1e-9)

    return scenario


class Flatten(nn.Module):
    """Every datum is a mapping that contributes ``rows`` predictions."""

    def __init__(self, inner, axis=0):
        super().__init__()
        self.inner, self.axis = inner, axis

    def forward(self, X):
        if isinstance(X, torch.Tensor):
            return self.inner((X.movedim(self.axis, 0) if self.axis else X).flatten(0, 1))
        return self.inner(X["x"].flatten(0, 1))


def groups(ctx):
    """Data whose number (known from ``batch_size_fn``) differs from the number of target rows."""
    kind = ctx.choose("kind", ["H", "H-blocks", "GGN", "EF", "MC"], free=True)
    loss = ctx.choose("loss", LOSSES, free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    rows = ctx.choose("rows per datum", [2, 3, 1], free=True)
    sizes = ctx.choose("batches", [[2, 1], [3], [1, 1, 1], [1, 3]], free=True)
    num = ctx.choose("num_data", ["infer", "given"], free=True)
    check = ctx.choose("check", [False, True], free=True)
    inputs = ctx.choose("inputs", ["mapping", "tensor", "tensor, data axis 1", "tensor, data axis 2"], free=True)
    N = sum(sizes)
    P = Problem("mlp", loss, red, N=N * rows, C=2, sizes=[s * rows for s in sizes])
    ref = reference(kind, P)
    flat = make_op(kind, P) if ref is None else None
    M = zoo.operand(P.D, 2)
    want = ref @ M if ref is not None else flat @ M
    axis = int(inputs[-1]) if "axis" in inputs else 0
    P.model = Flatten(P.model, axis)
    data = [(X.unflatten(0, (-1, rows)).movedim(0, axis).contiguous(), y) for X, y in P.data]
    size = None if inputs == "tensor" else lambda X: X.shape[axis]
    if inputs == "mapping":
        data, size = [({"x": X}, y) for X, y in data], lambda X: X["x"].shape[0]
    op = make_op(kind, P, data=data, batch_size_fn=size, check_deterministic=check,
                 num_data=N if num == "given" else None)
    zoo.expect(ctx, op @ M, want, f"{kind}, {rows} rows per datum", rtol=1e-7, atol=1e-9)
    if kind not in NO_LOSS:
        g, L = op.gradient_and_loss()
        total = P.loss_func(P.model.inner(P.X), P.y)
        zoo.expect(ctx, zoo.flat(g), zoo.flat(torch.autograd.grad(total, P.params)), "gradient", rtol=1e-7, atol=1e-9)
        zoo.expect(ctx, L, total.detach(), "loss", rtol=1e-7, atol=1e-9)


REPEATS = {"same batch": [0, 1, 0], "same batch in a row": [0, 0, 1], "same tensors": [0, 1, 0],
           "same inputs": [0, 1, 0], "same targets": [0, 1, 0], "twice": [0, 0]}


def repeats(ctx):
    """A mini-batch that occurs several times counts several times."""
    kind = ctx.choose("kind", [k for k in ALL if k != "ACT"], free=True)
    how = ctx.choose("repetition", list(REPEATS), free=True)
    num = ctx.choose("num_data", ["infer", "given"], free=True)
    via = ctx.choose("container", ["list", "loader"], free=True)
    loss = ctx.choose("loss", LOSSES)
    red = ctx.choose("reduction", REDUCTIONS)
    arch = ctx.choose("arch", ["mlp", "conv", "nobias"])
    order = REPEATS[how]
    sizes = [[2, 1][i] for i in order]
    P = Problem(arch, loss, red, N=sum(sizes), C=2, sizes=sizes)
    X, y = [b.clone() for b in P.X.split(sizes)], [b.clone() for b in P.y.split(sizes)]
    first = [order.index(i) for i in order]
    if how != "same targets":
        X = [X[i] for i in first]
    if how != "same inputs":
        y = [y[i] for i in first]
    P.X, P.y = torch.cat(X), torch.cat(y)
    P.data = [(a.clone(), b.clone()) for a, b in zip(X, y)]
    P.key = (how, *order) + P.key
    data = list(zip(X, y))
    if how in ("same batch", "same batch in a row", "twice"):
        data = [data[i] for i in first]
    if via == "loader":
        data = DataLoader(data, batch_size=None)
    ref = reference(kind, P)
    want = op_of(kind, P, ref)
    op = make_op(kind, P, data=data, num_data=P.N if num == "given" and kind not in NO_LOSS else None)
    M = zoo.operand(op.shape[1], 2)
    zoo.expect(ctx, op @ M, want @ M, f"{kind}, {how}", rtol=1e-7, atol=1e-9)
    if kind not in NO_LOSS + INVS:
        g, L = op.gradient_and_loss()
        total = P.loss_func(P.model(P.X), P.y)
        zoo.expect(ctx, zoo.flat(g), zoo.flat(torch.autograd.grad(total, P.params)), "gradient", rtol=1e-7, atol=1e-9)
        zoo.expect(ctx, L, total.detach(), "loss", rtol=1e-7, atol=1e-9)


def op_of(kind, P, ref):
    return ref if ref is not None else make_op(kind, P)


ASSUMPTIONS = ["the model treats the data independently (no batch normalisation in training mode)",
               "every traversal of the container yields the same data set"]


def scenarios(tier):
    q = tier == "quick"
    return [
        ("partitions", partitions, 1 if q else 2,
         "operator x every composition of N=3,4 into mini-batches x data order; deviations over loss, reduction, "
         "architecture, classes"),
        ("containers", containers(ALL), 0 if q else 2,
         "operator x data container x num_data x progressbar x safeguard"),
        ("groups", groups, None,
         "operator x loss x reduction x target rows per datum x batch partition x num_data x safeguard x kind of inputs (mapping; tensor whose data axis is 0, 1 or 2)"),
        ("repeats", repeats, 1 if q else 2,
         "operator x way a mini-batch recurs x num_data x container; deviations over loss, reduction, architecture"),
        ("containers, deviations", containers(["GGN", "EF", "MC", "KFAC", "KFAC-mc", "J"]), 1,
         "the same with deviations over loss, reduction, architecture, batches"),
    ]
