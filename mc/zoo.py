"""The bounded space of problems: models, losses, data, data containers."""

import torch
from collections import UserDict
from torch import nn

F64 = torch.float64


def gen(seed):
    return torch.Generator().manual_seed(1000 + seed)


def rand(*shape, seed=0, dtype=F64):
    """Generic (no structure, no ties), seed-independent values in (-1, 1)."""
    return (torch.rand(*shape, generator=gen(seed), dtype=F64) * 2 - 1).to(dtype)


def init(model, seed=1, scale=0.8, dtype=F64):
    model = model.to(dtype)
    g = gen(seed)
    with torch.no_grad():
        for p in model.parameters():
            p.copy_(((torch.rand(p.shape, generator=g, dtype=F64) * 2 - 1) * scale).to(dtype))
    return model


# ------------------------------------------------------------------------ models


class Tied(nn.Module):
    """Encoder and decoder share one weight."""

    def __init__(self, C):
        super().__init__()
        self.W = nn.Parameter(torch.zeros(C, 3))
        self.b = nn.Parameter(torch.zeros(3))

    def forward(self, x):
        h = torch.tanh(x @ self.W.T)
        h = torch.sigmoid(h @ self.W + self.b)
        return h @ self.W.T


class Odd(nn.Module):
    """Parameters of unusual rank: scalar, one element, three axes."""

    def __init__(self, C):
        super().__init__()
        self.s = nn.Parameter(torch.zeros(()))
        self.one = nn.Parameter(torch.zeros(1))
        self.T = nn.Parameter(torch.zeros(C, 1, 3))

    def forward(self, x):
        z = torch.einsum("ni,cji->nc", x, self.T)
        return torch.tanh(z * self.s.exp()) + self.one * z


class Seq(nn.Module):
    """Weight sharing over one extra axis; ``channels_first`` puts C on axis 1."""

    def __init__(self, C, channels_first, bias=True):
        super().__init__()
        self.l1 = nn.Linear(3, 2, bias=bias)
        self.l2 = nn.Linear(2, C, bias=bias)
        self.cf = channels_first

    def forward(self, x):
        z = self.l2(torch.tanh(self.l1(x)))
        return z.movedim(-1, 1) if self.cf else z


class GridPool(nn.Module):
    """Weight sharing over two extra axes that are averaged away before the output."""

    def __init__(self, C):
        super().__init__()
        self.l1 = nn.Linear(3, 2)
        self.l2 = nn.Linear(2, C)

    def forward(self, x):
        h = torch.tanh(self.l1(x))
        w = torch.linspace(0.4, 1.6, h.shape[1] * h.shape[2], dtype=h.dtype, device=h.device).reshape(*h.shape[1:3], 1)
        return self.l2((w * h).mean((1, 2)))


class Pool(nn.Module):
    """Weight sharing that is averaged away before the output."""

    def __init__(self, C):
        super().__init__()
        self.l1 = nn.Linear(3, 2)
        self.l2 = nn.Linear(2, C)

    def forward(self, x):
        return self.l2(torch.tanh(self.l1(x)).mean(1))


class GlobalPool(nn.Module):
    """Convolution (of inputs of any size) whose locations are averaged before the output."""

    def __init__(self, C):
        super().__init__()
        self.conv = nn.Conv2d(2, 2, 2, padding=1)
        self.lin = nn.Linear(2, C)

    def forward(self, x):
        return self.lin(torch.tanh(self.conv(x)).mean((2, 3)))


class ConvNet(nn.Module):
    def __init__(self, C, **kw):
        super().__init__()
        k = dict(in_channels=2, out_channels=2, kernel_size=2, padding=0)
        k.update(kw)
        self.conv = nn.Conv2d(**k)
        self.act = nn.Tanh()
        self.lin = nn.Linear(k["out_channels"], C)

    def forward(self, x):
        h = self.act(self.conv(x))
        w = torch.linspace(0.5, 1.5, h.shape[2] * h.shape[3], dtype=h.dtype, device=h.device).reshape(h.shape[2:])
        return self.lin((h * w).mean((2, 3)))


CONV = {
    "stride": dict(stride=2), "stride21": dict(stride=(2, 1), kernel_size=(1, 2)),
    "pad1": dict(padding=1), "pad10": dict(padding=(1, 0)), "dil": dict(dilation=2, kernel_size=2),
    "dil12": dict(dilation=(1, 2), padding=(0, 1)), "groups": dict(groups=2), "nobias": dict(bias=False),
    "valid": dict(padding="valid"), "same3": dict(padding="same", kernel_size=3),
    "same2": dict(padding="same", kernel_size=2), "same31": dict(padding="same", kernel_size=(3, 1)),
    "same13d": dict(padding="same", kernel_size=(1, 3), dilation=(1, 2)), "k1": dict(kernel_size=1),
    "k32": dict(kernel_size=(3, 2)), "rect": dict(kernel_size=(2, 3), padding=(1, 1), stride=(1, 2)),
    "circular": dict(padding=1, padding_mode="circular"),
    "reflect": dict(padding=(1, 0), padding_mode="reflect"),
    "groups2": dict(in_channels=2, out_channels=4, groups=2, padding=1),
    "wide": dict(out_channels=3), "full": dict(kernel_size=3),
}


class Mixed(nn.Module):
    """Convolutions, flattening and linear layers in nested containers."""

    def __init__(self, C):
        super().__init__()
        self.feat = nn.Sequential(nn.Conv2d(2, 2, 2, bias=False), nn.ReLU(inplace=True),
                                  nn.Conv2d(2, 1, 2, padding=1), nn.Tanh())
        self.head = nn.Sequential(nn.Flatten(), nn.Linear(9, C))

    def forward(self, x):
        return self.head(self.feat(x))


class Branch(nn.Module):
    """Residual connection; layers registered in another order than they are called."""

    def __init__(self, C):
        super().__init__()
        self.out = nn.Linear(3, C)
        self.body = nn.ModuleDict({"b": nn.Linear(3, 3), "a": nn.Linear(3, 3, bias=False)})

    def forward(self, x):
        h = torch.tanh(self.body["a"](x)) + x
        return self.out(torch.sigmoid(self.body["b"](h)) + h)


class Twins(nn.Module):
    """Layers of equal shape whose Kronecker factors agree up to a permutation (equal traces)."""

    def __init__(self, C):
        super().__init__()
        self.a = nn.Linear(3, C)
        self.b = nn.Linear(3, C)

    def forward(self, x):
        return self.a(x) + self.b(x.flip(-1)).flip(-1)


class ConvOut(nn.Module):
    """Fully convolutional: output [B, C, H, W] (channels first) or [B, H, W, C]."""

    def __init__(self, C, channels_first):
        super().__init__()
        self.c1 = nn.Conv2d(2, C, 2)
        self.cf = channels_first

    def forward(self, x):
        z = torch.tanh(self.c1(x)) * 1.5
        return z if self.cf else z.movedim(1, -1)


class Gated(nn.Module):
    """Parameters that are used for some data only, or never."""

    def __init__(self, C):
        super().__init__()
        self.first = nn.Linear(3, C)
        self.idle = nn.Parameter(torch.zeros(2))
        self.some = nn.Linear(3, C)

    def forward(self, x):
        z = self.first(x)
        gate = x[:, 0] > 0
        if gate.any():
            z = z + gate.unsqueeze(1) * torch.tanh(self.some(x))
        return z


class Heads(nn.Module):
    """Two tasks with their own heads, which only see the data of their task."""

    def __init__(self, C):
        super().__init__()
        self.body = nn.Linear(3, 3)
        self.left = nn.Linear(3, C)
        self.right = nn.Sequential(nn.Linear(3, 2), nn.Sigmoid(), nn.Linear(2, C, bias=False))

    def forward(self, x):
        task = (x[:, 0] > 0).unsqueeze(1)
        h = torch.tanh(self.body(x)) + 0.3 * x
        if task.all():
            return self.left(h)
        if not task.any():
            return self.right(x)  # (does not use the body)
        return torch.where(task, self.left(h), self.right(x))


class Embed(nn.Module):
    """Integer inputs: rows of one parameter are looked up (some repeatedly, some never)."""

    def __init__(self, C):
        super().__init__()
        self.table = nn.Embedding(6, 3)
        self.lin = nn.Linear(3, C)

    def forward(self, x):
        return self.lin(torch.tanh(self.table(x)).mean(1))


def restride(model):
    """Same values, but every parameter lives in non-contiguous memory."""
    for mod in model.modules():
        for name, p in list(mod.named_parameters(recurse=False)):
            d = p.detach()
            if d.ndim == 4:
                d = d.contiguous(memory_format=torch.channels_last)
            elif d.ndim == 2 and mod is not model[-1]:
                d = d.t().contiguous().t()
            else:  # every other entry of a larger buffer
                big = torch.full((*d.shape[:-1], 2 * d.shape[-1]), 7.0, dtype=d.dtype)
                big[..., ::2] = d
                d = big[..., ::2]
            mod._parameters[name] = nn.Parameter(d)
    return model


class Func:
    """A plain callable (not a module) over a list of parameters."""

    def __init__(self, C):
        self.plist = [nn.Parameter(rand(C, 3, seed=3)), nn.Parameter(rand(C, seed=4))]

    def __call__(self, x):
        W, b = self.plist
        return torch.sin(x @ W.T + b) + b**2

    def parameters(self):
        return iter(self.plist)


class DictWrap(nn.Module):
    """Model fed by a mapping."""

    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    def forward(self, X):
        x = X["x"]
        return self.inner(x)


def make_model(arch, C, cf=False, dtype=F64):
    if arch == "mlp":
        m = nn.Sequential(nn.Linear(3, 3), nn.Tanh(), nn.Linear(3, C))
    elif arch == "linear":
        m = nn.Sequential(nn.Linear(3, C))
    elif arch == "nobias":
        m = nn.Sequential(nn.Linear(3, 2, bias=False), nn.Sigmoid(), nn.Linear(2, C, bias=False))
    elif arch == "deep":
        m = nn.Sequential(
            nn.Linear(3, 2), nn.ReLU(inplace=True), nn.Linear(2, 3), nn.Sigmoid(),
            nn.Sequential(nn.Linear(3, 2), nn.Tanh()), nn.Linear(2, C),
        )
    elif arch == "norm":
        m = nn.Sequential(nn.Linear(3, 3), nn.LayerNorm(3), nn.Tanh(), nn.Linear(3, C))
    elif arch == "gated":
        m = Gated(C)
    elif arch == "heads":
        m = Heads(C)
    elif arch == "embed":
        m = Embed(C)
    elif arch == "bn":  # (evaluation mode: the statistics are constants)
        m = nn.Sequential(nn.Linear(3, 3), nn.BatchNorm1d(3), nn.Tanh(), nn.Linear(3, C)).eval()
        m[1].running_mean.copy_(rand(3, seed=21))
        m[1].running_var.copy_(rand(3, seed=22).abs() + 0.5)
    elif arch == "strided":
        m = nn.Sequential(nn.Linear(3, 2), nn.Tanh(), nn.Linear(2, C))
        return restride(init(m, dtype=dtype))
    elif arch == "chlast":
        m = nn.Sequential(nn.Conv2d(2, 2, 2), nn.Tanh(), nn.Flatten(), nn.Linear(8, C))
        return restride(init(m, dtype=dtype))
    elif arch == "tied":
        m = Tied(C)
    elif arch == "odd":
        m = Odd(C)
    elif arch in ("seq", "grid"):
        m = Seq(C, cf)
    elif arch == "gridpool":
        m = GridPool(C)
    elif arch == "pool":
        m = Pool(C)
    elif arch == "globalpool":
        m = GlobalPool(C)
    elif arch == "conv":
        m = ConvNet(C)
    elif arch.startswith("conv-"):
        m = ConvNet(C, **CONV[arch[5:]])
    elif arch == "twins":
        m = Twins(C)
    elif arch == "thin":  # (one-dimensional hidden space)
        m = nn.Sequential(nn.Linear(3, 1), nn.Tanh(), nn.Linear(1, C))
    elif arch == "big":
        m = nn.Sequential(nn.Linear(3, 20), nn.Tanh(), nn.Linear(20, C))
    elif arch == "bigseq":
        m = Seq(C, cf)
    elif arch == "bigconv":
        m = ConvNet(C, out_channels=5, kernel_size=3, padding=1)
    elif arch == "many":  # (layers whose names do not sort like their positions)
        m = nn.Sequential(*[f(3, 3) if f is nn.Linear else f() for _ in range(11) for f in (nn.Linear, nn.Tanh)],
                          nn.Linear(3, C))
    elif arch == "mixed":
        m = Mixed(C)
    elif arch == "branch":
        m = Branch(C)
    elif arch == "convout":
        m = ConvOut(C, cf)
    elif arch == "func":
        m = Func(C)
        for p in m.plist:
            p.data = p.data.to(dtype)
        return m
    else:
        raise ValueError(arch)
    return init(m, dtype=dtype)


IN_SHAPE = {"globalpool": (2, 3, 3), "bigseq": (40, 3), "bigconv": (2, 9, 8), "grid": (2, 3, 3), "gridpool": (2, 3, 3), "seq": (2, 3), "pool": (2, 3), "conv": (2, 3, 3), "convout": (2, 3, 2), "chlast": (2, 3, 3)}
EXTRA = {"bigseq": (40,), "grid": (2, 3), "seq": (2,), "convout": (2, 1)}  # extra output axes


def make_data(arch, loss, N, C, dtype=F64, seed=0):
    seed = 0 if isinstance(seed, str) else seed
    shape = (2, 3, 3) if arch.startswith("conv-") or arch == "mixed" else IN_SHAPE.get(arch, (3,))
    X = rand(N, *shape, seed=11 + seed, dtype=dtype)
    if arch == "embed":
        X = torch.randint(0, 5, (N, 3), generator=gen(11 + seed))
    elif arch == "chlast":
        X = X.contiguous(memory_format=torch.channels_last)
    ex = EXTRA.get(arch, ())
    if loss == "ce":
        y = torch.randint(0, C, (N, *ex), generator=gen(12 + seed))
    elif loss == "bce":
        y = torch.randint(0, 2, (N, *ex, C), generator=gen(13 + seed)).to(dtype)
    else:
        y = rand(N, *ex, C, seed=14 + seed, dtype=dtype)
    return X, y


LOSS = {"mse": nn.MSELoss, "ce": nn.CrossEntropyLoss, "bce": nn.BCEWithLogitsLoss}


def make_loss(loss, reduction):
    return LOSS[loss](reduction=reduction)


def compositions(n):
    """All ordered partitions of n (sizes of successive mini-batches)."""
    if n == 0:
        return [[]]
    return [[k] + rest for k in range(n, 0, -1) for rest in compositions(n - k)]


def split(X, y, sizes):
    return list(zip(X.split(list(sizes)), y.split(list(sizes))))


SPECIAL = ["fit first", "fit all", "zero inputs", "equal data", "large", "dead"]


def special_values(P, how, sizes):
    """Data and parameters on which terms vanish, coincide or saturate."""
    X, y = P.X, P.y
    P.key += (tuple(sizes),)
    with torch.no_grad():
        if how == "zero inputs":  # of the first mini-batch
            X[: sizes[0]] = 0.0
        elif how == "equal data":
            X[:], y[:] = X[:1].clone(), y[:1].clone()
        elif how == "large":
            X *= 6 if X.is_floating_point() else 1
        elif how == "dead":  # vanishing last parameter
            list(P.model.parameters())[-1].zero_()
        elif P.lossname == "mse":
            # residuals (hence losses and gradients) that are exactly zero
            for n, (x, t) in enumerate(zip(X.split(sizes), y.split(sizes))):
                if n == 0 or how == "fit all":
                    t.copy_(P.model(x))


class Problem:
    """A fully specified empirical risk."""

    def __init__(self, arch="mlp", loss="mse", reduction="mean", N=4, C=2, sizes=None,
                 dtype=F64, params=None, seed=0):
        cf = loss == "ce"
        self.key = (arch, loss, reduction, N, C, str(dtype), seed)
        self.arch, self.lossname, self.reduction, self.N, self.C = arch, loss, reduction, N, C
        self.dtype, self.seed = dtype, seed
        self.model = make_model(arch, C, cf, dtype)
        self.X, self.y = make_data(arch, loss, N, C, dtype, seed)
        if sizes is not None and isinstance(seed, str):
            special_values(self, seed, list(sizes))
        self.loss_func = make_loss(loss, reduction)
        self.all_params = list(self.model.parameters())
        self.sizes = list(sizes) if sizes is not None else [N]
        self.data = split(self.X, self.y, self.sizes)
        self.select = params if params is not None else list(range(len(self.all_params)))
        self.params = [self.all_params[i] for i in self.select]
        # index of the selected coordinates in the flattened full parameter vector
        off, ranges = 0, []
        for p in self.all_params:
            ranges.append(list(range(off, off + p.numel())))
            off += p.numel()
        self.index = [j for i in self.select for j in ranges[i]]
        self.D = len(self.index)

    @property
    def args(self):
        return self.model, self.loss_func, self.params, self.data


class Ragged:
    """Data of different sizes: slices are tensors, ``RaggedModel`` also takes them all."""

    def __init__(self, items):
        self.items = items

    def __getitem__(self, key):
        (item,) = self.items[key]
        return item


class RaggedModel(nn.Module):
    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    def forward(self, x):
        return torch.cat([self.inner(i) for i in x.items]) if isinstance(x, Ragged) else self.inner(x)


RAGGED = {"pool": lambda k: (k, 3), "gridpool": lambda k: (k, 1 + k % 3, 3), "globalpool": lambda k: (2, k, 1 + k % 3)}


def ragged(arch, loss, reduction, sizes, lengths, C=2, params=None):
    """A problem whose mini-batches have inputs of different lengths."""
    P = Problem(arch, loss, reduction, N=sum(sizes), C=C, sizes=sizes, params=params)
    Xs = [rand(n, *RAGGED[arch](k), seed=31 + i) for i, (n, k) in enumerate(zip(sizes, lengths))]
    P.model = RaggedModel(P.model)
    P.X = Ragged([x for X in Xs for x in X.split(1)])
    P.data = list(zip(Xs, P.y.split(list(sizes))))
    P.key = ("ragged", tuple(sizes), tuple(lengths)) + P.key
    return P


def heads(loss, reduction, tasks, C=2, params=None):
    """Two tasks; ``tasks`` has one word of l(eft) and r(ight) per mini-batch."""
    P = Problem("heads", loss, reduction, N=len("".join(tasks)), C=C, sizes=[len(t) for t in tasks], params=params)
    sign = torch.tensor([1.0 if t == "l" else -1.0 for t in "".join(tasks)], dtype=P.dtype)
    P.X[:, 0] = sign * (P.X[:, 0].abs() + 0.1)
    P.data = split(P.X, P.y, P.sizes)
    P.key = ("heads", tuple(tasks)) + P.key
    return P


LARGE = {"big": ([70, 16, 4], 17), "bigseq": ([3, 2, 1], 3), "bigconv": ([4, 3], 4), "many": ([2, 1, 1], 3),
         "mlp": ([1] * 33 + [2] * 4 + [1] * 4, 2)}


def large_problem(arch, loss, reduction, make=None, **k):
    """Many data, classes, positions or layers (anything beyond a few dozens)."""
    sizes, C = LARGE[arch]
    return (make or Problem)(arch, loss, reduction, N=sum(sizes), C=C, sizes=sizes, **k)


def param_selections(n):
    """Subsets/orders of n parameters: all, reversed, singletons, rotations, drops."""
    out = {"all": list(range(n)), "reversed": list(range(n))[::-1]}
    for i in range(n):
        out[f"only{i}"] = [i]
    if n > 2:
        out["rot"] = list(range(1, n)) + [0]
        for i in range(n):
            out[f"drop{i}"] = [j for j in range(n) if j != i]
        out["swap"] = [1, 0] + list(range(2, n))
    return out


def num_params(arch):
    if arch.startswith("conv-"):
        return 3 if arch == "conv-nobias" else 4
    return {"heads": 7, "globalpool": 4, "embed": 3, "bn": 6, "strided": 4, "chlast": 4, "gated": 5, "thin": 4, "big": 4, "bigseq": 4, "bigconv": 4, "many": 24, "twins": 4, "mixed": 5, "branch": 5, "mlp": 4, "linear": 2, "nobias": 2, "deep": 8, "norm": 6, "tied": 2, "odd": 3,
            "seq": 4, "grid": 4, "gridpool": 4, "pool": 4, "conv": 4, "convout": 2, "func": 2}[arch]


# --------------------------------------------------------------- operands (formats)


def flat(ts):
    return torch.cat([t.reshape(-1) for t in ts])


def to_list(M, shapes):
    """Column-stacked matrix [D, K] (or vector [D]) -> tensor list format."""
    sizes = [int(torch.Size(s).numel()) for s in shapes]
    if M.ndim == 1:
        return [m.reshape(s) for m, s in zip(M.split(sizes), shapes)]
    return [m.reshape(*s, M.shape[1]) for m, s in zip(M.split(sizes), shapes)]


def from_list(L):
    """Inverse of to_list for matrices."""
    return torch.cat([x.reshape(-1, x.shape[-1]) for x in L])


FORMATS = ["mat3", "vec", "listmat", "listvec", "col1", "eye", "noncontig", "wide", "onehot",
           "listcol1", "expanded", "structured", "scaled", "many",
           "liststrided", "autograd", "listautograd"]
CORE_FORMATS = FORMATS[: FORMATS.index("many")]
COLUMN_SCALES = torch.tensor([1.0, 1e-9, 1e9, 1e-20, 1e-14, 1e5], dtype=F64)


def structured(shapes, dtype=F64):
    """Operands with special structure: zero, constant, alternating, supported on (or vanishing
    on) one tensor, and differences of neighbouring unit vectors."""
    sizes = [int(torch.Size(s).numel()) for s in shapes]
    D = sum(sizes)
    v = operand(D, 1)[:, 0]
    cols = [torch.zeros(D, dtype=F64), torch.ones(D, dtype=F64), torch.arange(D) % 2 * 2.0 - 1.0, v, torch.zeros(D, dtype=F64)]
    off = 0
    for n in sizes:
        inside = torch.zeros(D, dtype=F64)
        inside[off : off + n] = 1.0
        cols += [v * inside, v * (1 - inside)]
        off += n
    if D > 1:
        eye = torch.eye(D, dtype=F64)
        cols += list(eye[:-1] - eye[1:]) + [eye[0] - eye[-1]]
    return torch.stack([c.to(F64) for c in cols], 1).to(dtype)


def operand(D, K, dtype=F64, seed=77):
    """Generic right-hand side with columns of very different scale."""
    M = rand(D, K, seed=seed + K, dtype=F64)
    return (M * torch.tensor([1.0, -7.5, 0.02, 3.3, 100.0, 1e-3, 11.0])[torch.arange(K) % 7]).to(dtype)


LOOSE = {torch.float32: 3e-4, torch.bfloat16: 0.15}


def check_product(ctx, op, ref, in_shapes, out_shapes, dtype=F64, fmt=None, free=False,
                  what="product", rtol=1e-8, atol=1e-10, sig=None):
    """Compare ``op @ M`` with ``ref @ M`` in one of the public operand formats."""
    D = sum(int(torch.Size(s).numel()) for s in in_shapes)
    if fmt is None:
        fmt = ctx.choose("format", FORMATS, free=free)
    in_shapes, out_shapes = [tuple(s) for s in in_shapes], [tuple(s) for s in out_shapes]
    if fmt in ("vec", "listvec", "onehot"):
        M = operand(D, 1, dtype)[:, 0]
        if fmt == "onehot":
            M = torch.zeros_like(M)
            M[-1] = 2.0
    elif fmt in ("col1", "listcol1"):
        M = operand(D, 1, dtype)
    elif fmt == "eye":
        M = torch.eye(D, dtype=dtype)
    elif fmt == "wide":
        M = operand(D, 6, dtype)
    elif fmt == "noncontig":
        M = operand(D, 3, dtype).t().contiguous().t()
    elif fmt == "expanded":
        M = operand(D, 1, dtype).expand(D, 2)
    elif fmt == "structured":
        M = structured(in_shapes, dtype)
    elif fmt == "scaled":
        M = (rand(D, len(COLUMN_SCALES), seed=78) * COLUMN_SCALES).to(dtype)
    elif fmt in ("many", "some"):
        M = operand(D, 130 if fmt == "many" else 70, dtype)
    else:
        M = operand(D, 3 if fmt == "mat3" else 2, dtype)
    want = (ref.to(F64) @ M.to(F64))
    if fmt.startswith("list"):
        X = to_list(M, in_shapes)
        if fmt == "liststrided":  # entries in unusual memory
            X = [x.movedim(-1, 0).contiguous().movedim(0, -1) if i % 2 else
                 torch.stack([x, x + 1.0], -1)[..., 0] for i, x in enumerate(X)]
        elif fmt == "listautograd":
            X = [x.clone().requires_grad_() for x in X]
        got = op @ X
        ctx.check(isinstance(got, list) and len(got) == len(out_shapes),
                  f"{what}: list operand must give a list of {len(out_shapes)} tensors")
        K = () if M.ndim == 1 else (M.shape[1],)
        for g, s in zip(got, out_shapes):
            ctx.check(tuple(g.shape) == (*s, *K), f"{what}: entry shape {tuple(g.shape)}, expected {(*s, *K)}")
        ctx.check(all(torch.equal(a, b) for a, b in zip(X, to_list(M, in_shapes))),
                  f"{what}: the operand was modified")
        got = flat(got) if M.ndim == 1 else from_list(got)
        got = got.detach() if fmt == "listautograd" else got
    else:
        M0 = M.clone()
        if fmt == "autograd":
            got = (op @ M0.requires_grad_()).detach()
        else:
            got = op @ M
        ctx.check(torch.equal(M0, M), f"{what}: the operand was modified")
        ctx.check(torch.is_tensor(got), f"{what}: tensor operand must give a tensor")
    ctx.check(got.dtype == dtype, f"{what}: dtype {got.dtype}, expected {dtype}")
    ctx.check(not got.requires_grad, f"{what}: result is attached to an autograd graph")
    if dtype != F64:  # rounding errors are proportional to the terms, not to their sum
        rtol = max(rtol, LOOSE[dtype])
        bound = float(ref.abs().max()) * (M.to(F64) / COLUMN_SCALES if fmt == "scaled" else M.to(F64)).abs().max()
        atol = max(atol, float(bound) * rtol)
    if fmt == "scaled":
        got, want = got / COLUMN_SCALES.to(got.dtype), want / COLUMN_SCALES
    expect(ctx, got, want, f"{what} [{fmt}]", rtol, atol, sig)


def close(A, B, rtol=1e-8, atol=1e-10):
    A, B = torch.as_tensor(A), torch.as_tensor(B)
    if A.shape != B.shape:
        return False
    if A.numel() == 0:
        return True
    scale = max(float(B.abs().max()), float(A.abs().max()) if torch.isfinite(A).all() else 0.0)
    return bool(torch.isfinite(A).all()) and float((A - B).abs().max()) <= atol + rtol * scale


def diff(A, B):
    A, B = torch.as_tensor(A), torch.as_tensor(B)
    if A.shape != B.shape:
        return f"shape {tuple(A.shape)} vs {tuple(B.shape)}"
    return f"max abs difference {float((A.double() - B.double()).abs().max()):.3e} (reference max {float(B.double().abs().max()):.3e})"


def expect(ctx, got, want, what, rtol=1e-8, atol=1e-10, sig=None):
    ctx.check(close(got, want, rtol, atol), lambda: f"{what}: {diff(got, want)}", sig)
