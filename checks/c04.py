"""C04: Jacobian and transposed Jacobian operators, and their adjoints."""

from checks.common import *
from mc import refs, zoo

KINDS = ["J", "JT", "J.adjoint", "JT.adjoint", "J.adjoint.adjoint", "JT.adjoint.adjoint"]


class VecOut(nn.Module):
    """Model whose prediction has no feature axis: output [N]."""

    def __init__(self):
        super().__init__()
        self.l = nn.Linear(3, 2)

    def forward(self, x):
        return torch.tanh(self.l(x)).prod(-1)


def check_kind(ctx, P, kind, kw, fmt=None):
    from curvlinops import JacobianLinearOperator, TransposedJacobianLinearOperator

    cls = JacobianLinearOperator if kind.startswith("J.") or kind == "J" else TransposedJacobianLinearOperator
    op = cls(P.model, P.params, P.data, **kw)
    for _ in range(kind.count("adjoint")):
        op = op.adjoint()
    transposed = (cls is TransposedJacobianLinearOperator) ^ (kind.count("adjoint") % 2 == 1)
    J = refs.jacobian(P)
    with torch.no_grad():
        out = [tuple(P.model(P.X).shape)]
    ins = shapes_of(P.params)
    if transposed:
        check_op(ctx, op, J.T, P, kind, in_shapes=out, out_shapes=ins, fmt=fmt)
    else:
        check_op(ctx, op, J, P, kind, in_shapes=ins, out_shapes=out, fmt=fmt)


def make(arch, loss, red, **k):
    P = Problem("linear" if arch == "vecout" else arch, loss, red, **k)
    if arch == "vecout":
        P.model = zoo.init(VecOut(), dtype=P.dtype)
        P.all_params = list(P.model.parameters())
        P.params = [P.all_params[i] for i in P.select]
        off = [0, 6, 8]
        P.index = [j for i in P.select for j in range(off[i], off[i + 1])]
        P.key = ("vecout",) + P.key
    return P


zoo_num = zoo.num_params


def scenario(ctx):
    kind = ctx.choose("operator", KINDS)
    arch = ctx.choose("arch", ["mlp", "seq", "vecout"] + [a for a in ARCHS if a not in ("mlp", "seq")])
    # the label type only changes where the model puts its channel axis
    loss = ctx.choose("layout", ["mse", "ce"])
    sizes = choose_sizes(ctx)
    C = ctx.choose("C", [2, 1, 3, 5])
    sel = ctx.pick("params", zoo.param_selections(2 if arch == "vecout" else zoo.num_params(arch)))
    dt = ctx.choose("dtype", DTYPES)
    P = make(arch, loss, "mean", N=sum(sizes), C=C, sizes=sizes, params=sel, dtype=dt)
    check_kind(ctx, P, kind, op_kwargs(ctx, P))


def core(ctx):
    kind = ctx.choose("operator", KINDS, free=True)
    arch = ctx.choose("arch", ["mlp", "seq", "convout", "vecout", "odd"], free=True)
    sizes = ctx.choose("batches", compositions(4) + [[1] * 6, [3, 3, 1]], free=True)
    fmt = ctx.choose("format", zoo.CORE_FORMATS, free=True)
    P = make(arch, "mse", "mean", N=sum(sizes), C=2, sizes=sizes)
    check_kind(ctx, P, kind, {"check_deterministic": False}, fmt=fmt)


def large(ctx):
    kind = ctx.choose("operator", KINDS, free=True)
    P = choose_large(ctx, losses=["mse", "ce"])
    fmt = ctx.choose("format", ["some", "listvec"], free=True)
    check_kind(ctx, P, kind, {"check_deterministic": False}, fmt=fmt)


def lengths(ctx):
    kind = ctx.choose("operator", KINDS, free=True)
    P = choose_ragged(ctx, ["mse"], ["mean"])
    det = ctx.choose("check_deterministic", [False, True], free=True)
    check_kind(ctx, P, kind, {"check_deterministic": det}, ctx.choose("format", ["mat3", "listvec"]))


def tasks(ctx):
    kind = ctx.choose("operator", KINDS, free=True)
    P = choose_heads(ctx, ["mse"])
    det = ctx.choose("check_deterministic", [False, True], free=True)
    check_kind(ctx, P, kind, {"check_deterministic": det}, ctx.choose("format", ["mat3", "listvec"]))


class Rows(nn.Module):
    """Every datum gives several rows of predictions."""

    def __init__(self, inner, rows):
        super().__init__()
        self.inner, self.rows = inner, rows

    def forward(self, x):
        y = self.inner(x)
        return torch.stack([y * (r + 1) + r * y**2 for r in range(self.rows)], 1).flatten(0, 1)


def rows(ctx):
    """The number of rows is what the user says (num_data, batch_size_fn), not the length of an axis."""
    kind = ctx.choose("operator", KINDS, free=True)
    per = ctx.choose("rows per datum", [2, 3], free=True)
    how = ctx.choose("given by", ["num_data", "batch_size_fn", "both"], free=True)
    sizes = ctx.choose("batches", [[2, 1, 1], [3], [1, 2]], free=True)
    det = ctx.choose("check_deterministic", [False, True], free=True)
    P = Problem("mlp", "mse", "mean", N=sum(sizes), C=2, sizes=sizes)
    P.model, P.key = Rows(P.model, per), ("rows", per) + P.key
    kw = {"check_deterministic": det}
    if how != "batch_size_fn":
        kw["num_data"] = per * sum(sizes)
    if how != "num_data":
        kw["batch_size_fn"] = lambda X: per * X.shape[0]
    check_kind(ctx, P, kind, kw, ctx.choose("format", ["mat3", "listvec", "listmat"], free=True))


ASSUMPTIONS = ["generic data from a fixed stream; float64 with relative tolerance 1e-8, float32 and bfloat16 with 3e-4 and 0.15",
               "at least one column", "the loader presents the data in a fixed order"]


def scenarios(tier):
    return [
        ("configurations", scenario, 2 if tier == "quick" else 3,
         "deviations from J/mlp/[2,1,1]/C=2/all params over operator, architecture, output "
         "layout, batch partition, output dim, parameter selection, options, format"),
        ("core", core, None, "full product operator x architecture x batch partition x format"),
        ("tasks", tasks, None, "operator x " + HEADS_TEXT),
        ("lengths", lengths, None, "operator x " + RAGGED_TEXT),
        ("rows", rows, None, "several rows per datum, as given by num_data or batch_size_fn: operator x rows x batches x format"),
        ("large problems", large, None, LARGE_TEXT),
    ]
