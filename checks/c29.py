"""C29: every combination of constructor arguments is accepted (and works) or rejected as documented."""

import warnings

import torch.nn.functional as F
from torch.nn.utils import parametrizations

import numpy as np
from scipy.sparse.linalg import aslinearoperator

from checks.common import *
from checks.ops import block_mask
from mc import refs, world, zoo


def judge(ctx, P, what, run, allowed, snap=True):
    """``run()`` must raise one of ``allowed`` or, if that is empty, return its result."""
    before = world.Snapshot(P, rng=False) if snap else None
    out = None
    try:
        out = run()
        raised = None
    except Exception as e:
        raised = e
    if before is not None:
        d = before.difference()
        ctx.check(d is None, lambda: f"{what}: changes {d}")
    if allowed:
        ctx.check(raised is not None, lambda: f"{what}: accepted, expected {[e.__name__ for e in allowed]}")
        ctx.check(isinstance(raised, tuple(allowed)),
                  lambda: f"{what}: {type(raised).__name__} instead of {[e.__name__ for e in allowed]}")
    else:
        ctx.check(raised is None, lambda: f"{what}: rejected with {type(raised).__name__}: {raised}")
    return out


class MyMSE(nn.MSELoss):
    pass


LOSS_OBJECTS = {
    "mse": (lambda: nn.MSELoss(), "mse"), "ce": (lambda: nn.CrossEntropyLoss(reduction="sum"), "ce"),
    "bce": (lambda: nn.BCEWithLogitsLoss(), "bce"), "subclass": (lambda: MyMSE(), "mse"),
    "l1": (lambda: nn.L1Loss(), None), "smoothl1": (lambda: nn.SmoothL1Loss(), None),
    "bce on probabilities": (lambda: nn.BCELoss(), None), "nll": (lambda: nn.NLLLoss(), None),
    "function": (lambda: F.mse_loss, None), "class": (lambda: nn.MSELoss, None), "none": (lambda: None, None),
    "string": (lambda: "mse", None), "custom": (lambda: Pow4("mean"), None),
}


def loss_problem(name, arch="mlp", **k):
    make, base = LOSS_OBJECTS[name]
    red = "sum" if name == "ce" else "mean"
    P = Problem(arch, base or "mse", red, N=3, C=2, sizes=[2, 1], **k)
    P.loss_func = make()
    return P, base is not None


class Wrapped(nn.Module):
    """A mixture of supported and unsupported layers."""

    def __init__(self, layer):
        super().__init__()
        self.first, self.special, self.last = nn.Linear(3, 3), layer, nn.Linear(3, 2)

    def forward(self, x):
        h = torch.tanh(self.first(x))
        if isinstance(self.special, nn.Conv1d):
            return self.last(self.special(h.unsqueeze(-1)).squeeze(-1))
        if isinstance(self.special, nn.Bilinear):
            return self.last(self.special(h, h))
        return self.last(self.special(h))


class Raw(nn.Module):
    """A parameter that is no layer's."""

    def __init__(self):
        super().__init__()
        self.weight = nn.Parameter(torch.ones(3))

    def forward(self, x):
        return x * self.weight


class MyLinear(nn.Linear):
    pass


SPECIAL = {
    "linear": (lambda: nn.Linear(3, 3), True), "subclass of linear": (lambda: MyLinear(3, 3), True),
    "nested linear": (lambda: nn.Sequential(nn.Sequential(nn.Linear(3, 3))), True),
    "layer norm": (lambda: nn.LayerNorm(3), False), "prelu": (lambda: nn.PReLU(), False),
    "conv1d": (lambda: nn.Conv1d(3, 3, 1), False), "bilinear": (lambda: nn.Bilinear(3, 3, 3), False),
    "raw": (lambda: Raw(), False), "nested norm": (lambda: nn.Sequential(nn.Linear(3, 3), nn.LayerNorm(3)), False),
    "no parameters": (lambda: nn.Tanh(), True),
    "weight normalisation": (lambda: parametrizations.weight_norm(nn.Linear(3, 3)), False),
    "weight normalisation by hooks": (lambda: nn.utils.weight_norm(nn.Linear(3, 3)), False),
    "spectral normalisation": (lambda: parametrizations.spectral_norm(nn.Linear(3, 3)).eval(), False),
    "orthogonal": (lambda: parametrizations.orthogonal(nn.Linear(3, 3)), False),
}

FISHERS = {"type-2": "type-2", "mc": "mc", "empirical": "empirical", "forward-only": "forward-only",
           "TYPE2": "TYPE2", "MC": "MC", "EMPIRICAL": "EMPIRICAL", "FORWARD_ONLY": "FORWARD_ONLY"}
BAD_FISHERS = ["type2", "Mc", "", "exact", None, 2]
APPROX = ["expand", "reduce", "EXPAND", "REDUCE"]
BAD_APPROX = ["Expand", "", "kfac", None, 0]


def enum(cls, name):
    return getattr(cls, name) if isinstance(name, str) and name.isupper() else name


def kfac(ctx):
    """Losses x Fisher types x approximations x numbers of samples x treatment of biases."""
    import curvlinops as c
    from curvlinops.kfac import FisherType, KFACType

    P, ok = loss_problem(ctx.choose("loss", list(LOSS_OBJECTS), free=True))
    ft = ctx.choose("fisher_type", list(FISHERS) + BAD_FISHERS, free=True)
    ap = ctx.choose("kfac_approx", APPROX + BAD_APPROX, free=True)
    mc = ctx.choose("mc_samples", [1, 2, 3], free=True)
    joint = ctx.choose("joint bias", [False, True], free=True)
    det = ctx.choose("check_deterministic", [False, True], free=True)
    kw = dict(fisher_type=enum(FisherType, ft) if ft in FISHERS else ft,
              kfac_approx=enum(KFACType, ap) if ap in APPROX else ap)
    is_mc = ft in ("mc", "MC")
    bad = not ok or ft not in FISHERS or ap not in APPROX or (mc != 1 and not is_mc)
    args = dict(mc_samples=mc, separate_weight_and_bias=not joint)

    def run():
        op = c.KFACLinearOperator(*P.args, check_deterministic=det, **args, **kw)
        return op @ torch.eye(P.D, dtype=F64)

    got = judge(ctx, P, "KFAC", run, [ValueError] if bad else [])
    if bad:
        return
    names = {"TYPE2": "type-2", "MC": "mc", "EMPIRICAL": "empirical", "FORWARD_ONLY": "forward-only"}
    plain = c.KFACLinearOperator(*P.args, check_deterministic=False, fisher_type=names.get(ft, ft),
                                 kfac_approx=ap.lower(), **args) @ torch.eye(P.D, dtype=F64)
    ctx.check(torch.isfinite(got).all(), "not finite")
    zoo.expect(ctx, got, plain, "enumeration member and string")


def layers(ctx):
    """KFAC: every subset of parameters of models with unsupported layers."""
    import curvlinops as c

    special = ctx.choose("layer", list(SPECIAL), free=True)
    make, ok = SPECIAL[special]
    model = zoo.init(Wrapped(make()))
    names = [n for n, _ in model.named_parameters()]
    pick = ctx.choose("parameters", list(range(1, 2 ** len(names))), free=True)
    frozen = ctx.choose("others", ["trainable", "frozen"], free=True) == "frozen"
    order = ctx.choose("order", ["registration", "reversed"], free=True)
    ft = ctx.choose("fisher_type", ["type-2", "empirical"], free=True)
    P = Problem("mlp", "mse", "mean", N=3, C=2, sizes=[2, 1])
    P.model = model
    P.all_params = list(model.parameters())
    chosen = [i for i in range(len(names)) if pick >> i & 1]
    if order == "reversed":
        chosen = chosen[::-1]
    P.params = [P.all_params[i] for i in chosen]
    if frozen:
        for i, p in enumerate(P.all_params):
            p.requires_grad_(i in chosen)
    bad = not ok
    if not ok:
        # (biases of layers with re-parameterised weights are ordinary biases)
        good = {"nested norm": "special.0."}.get(special, "special.bias" if make().__class__.__name__ in ("Linear", "ParametrizedLinear") else "-")
        bad = any(names[i].startswith("special.") and not names[i].startswith(good) for i in chosen)

    def run():
        op = c.KFACLinearOperator(*P.args, fisher_type=ft, check_deterministic=False)
        D = op.shape[1]
        return D, op @ torch.eye(D, dtype=F64)

    got = judge(ctx, P, f"{special}, {[names[i] for i in chosen]}", run, [NotImplementedError] if bad else [])
    if not bad:
        D = sum(p.numel() for p in P.params)
        ctx.check(got[0] == D and tuple(got[1].shape) == (D, D), "shape")
        ctx.check(torch.isfinite(got[1]).all() and zoo.close(got[1], got[1].T), "not a finite symmetric matrix")
        ctx.check(bool((got[1].diagonal().abs() > 0).any()), "zero")


def fishers(ctx):
    """Empirical and Monte-Carlo Fisher: losses, output ranks, targets."""
    import curvlinops as c

    kind = ctx.choose("operator", ["EF", "MC", "GGN", "H", "KFAC"], free=True)
    name = ctx.choose("loss", list(LOSS_OBJECTS), free=True)
    arch = ctx.choose("arch", ["mlp", "seq", "convout"], free=True)
    soft = ctx.choose("binary targets", [True, False], free=True) is False
    det = ctx.choose("check_deterministic", [False, True], free=True)
    P, ok = loss_problem(name, arch)
    if soft:
        if name != "bce":
            ctx.skip()
        P.y = torch.where(P.y > 0.5, 0.7, 0.2).to(F64)
        P.data = zoo.split(P.X, P.y, P.sizes)
    cls = {"EF": c.EFLinearOperator, "MC": c.FisherMCLinearOperator, "GGN": c.GGNLinearOperator,
           "H": c.HessianLinearOperator, "KFAC": c.KFACLinearOperator}[kind]
    kw = {"fisher_type": "type-2"} if kind == "KFAC" else {}
    D = sum(p.numel() for p in P.params)

    def run():
        return cls(*P.args, check_deterministic=det, **kw) @ torch.eye(D, dtype=F64)

    allowed = []
    if kind in ("EF", "MC") and not ok:
        allowed = [NotImplementedError]
    elif kind == "MC" and soft:
        allowed = [NotImplementedError]
    elif kind == "KFAC":
        allowed = [ValueError] if not ok else [NotImplementedError] if soft else []
    elif kind in ("GGN", "H") and not ok:
        if name not in ("custom", "smoothl1") or (name == "custom" and arch != "mlp"):
            ctx.skip()  # any differentiable loss may be used; these are not usable with the data
    got = judge(ctx, P, f"{kind} {name} {arch}", run, allowed)
    if allowed:
        return
    ctx.check(torch.isfinite(got).all() and zoo.close(got, got.T), "not a finite symmetric matrix")
    if kind == "EF" and name in ("mse", "subclass", "ce", "bce") and not soft:
        zoo.expect(ctx, got, refs.empirical_fisher(P), "empirical Fisher")


BLOCKS = {"none": None, "[4]": [4], "[1,3]": [1, 3], "[2,2]": [2, 2], "[1,1,1,1]": [1, 1, 1, 1], "[3,1]": [3, 1],
          "[2,1]": [2, 1], "[5]": [5], "[0,4]": [0, 4], "[4,0]": [4, 0], "[-1,5]": [-1, 5], "[5,-1]": [5, -1],
          "[]": [], "[2,0,2]": [2, 0, 2], "[1,2,1]": [1, 2, 1], "[4,4]": [4, 4], "[-4,8]": [-4, 8]}


class Mapping(dict):
    pass


def blocks(ctx):
    """Block sizes: accepted by the Hessian only if they partition the parameters."""
    import curvlinops as c

    sizes = ctx.pick("block_sizes", BLOCKS, free=True)
    det = ctx.choose("check_deterministic", [False, True], free=True)
    num = ctx.choose("num_data", [None, 3], free=True)
    loss = ctx.choose("loss", LOSSES, free=True)
    feed = ctx.choose("inputs", ["tensor", "dict", "subclass", "UserDict"], free=True)
    size_fn = ctx.choose("batch_size_fn", [False, True], free=True)
    kind = ctx.choose("operator", ["H", "GGN", "EF", "MC", "KFAC", "J", "JT"], free=True)
    if kind != "H" and sizes is not None:
        ctx.skip()  # the public constructors do not take block sizes
    P = Problem("mlp", loss, "mean", N=3, C=2, sizes=[2, 1])
    cls = {"H": c.HessianLinearOperator, "GGN": c.GGNLinearOperator, "EF": c.EFLinearOperator,
           "MC": c.FisherMCLinearOperator, "KFAC": c.KFACLinearOperator, "J": c.JacobianLinearOperator,
           "JT": c.TransposedJacobianLinearOperator}[kind]
    if feed != "tensor":
        from collections import UserDict

        mk = {"dict": dict, "subclass": Mapping, "UserDict": UserDict}[feed]
        P.data = [(mk(x=X), y) for X, y in P.data]
        P.model = zoo.DictWrap(P.model)
    kw = {"check_deterministic": det, "num_data": num}
    if size_fn:
        kw["batch_size_fn"] = (lambda X: len(X)) if feed == "tensor" else (lambda X: len(X["x"]))
    if sizes is not None:
        kw["block_sizes"] = list(sizes)
    if kind == "KFAC":
        kw["fisher_type"] = "type-2"
    a = (P.model, P.params, P.data) if kind in ("J", "JT") else P.args
    bad = (feed != "tensor" and not size_fn) or (sizes is not None and (sum(sizes) != 4 or min(sizes, default=1) <= 0))

    wrong_blocks = sizes is not None and (sum(sizes) != 4 or min(sizes, default=1) <= 0)

    def run():
        op = cls(*a, **kw)
        # (block sizes are refused by the constructor, whether or not products are computed)
        return None if wrong_blocks else op @ torch.eye(op.shape[1], dtype=F64)

    got = judge(ctx, P, f"{kind} {sizes} {feed}", run, [ValueError] if bad else [])
    if not bad and kind == "H":
        Q = Problem("mlp", loss, "mean", N=3, C=2, sizes=[2, 1])
        want = refs.hessian(Q) * block_mask(Q, sizes or [4])
        zoo.expect(ctx, got, want, "block diagonal Hessian")


def inverse(ctx):
    """Inverse of KFAC: operands x dampings x strategies x options."""
    import curvlinops as c

    what = ctx.choose("operand", ["KFAC", "KFAC subclass", "Hessian", "GGN", "SciPy", "tensor", "none", "inverse", "submatrix"],
                      free=True)
    damp = ctx.choose("damping", [0.3, (0.2, 0.5), (0.3, 0.3), 1, 0.0, (0.0, 0.0), (0.0, 0.4)], free=True)
    heur = ctx.choose("heuristic", [False, True], free=True)
    exact = ctx.choose("exact", [False, True], free=True)
    cache = ctx.choose("cache", [True, False], free=True)
    retry = ctx.choose("retry", [True, False], free=True)
    joint = ctx.choose("joint", [False, True], free=True)
    P = Problem("mlp", "mse", "mean", N=3, C=2, sizes=[2, 1])

    class Sub(c.KFACLinearOperator):
        pass

    def kf(cls=c.KFACLinearOperator):
        return cls(*P.args, fisher_type="type-2", check_deterministic=False, separate_weight_and_bias=not joint)

    A = {"KFAC": kf, "KFAC subclass": lambda: kf(Sub),
         "Hessian": lambda: c.HessianLinearOperator(*P.args, check_deterministic=False),
         "GGN": lambda: c.GGNLinearOperator(*P.args, check_deterministic=False),
         "SciPy": lambda: aslinearoperator(np.eye(3)), "tensor": lambda: torch.eye(3), "none": lambda: None,
         "inverse": lambda: c.KFACInverseLinearOperator(kf(), 0.1),
         "submatrix": lambda: c.SubmatrixLinearOperator(kf().to_scipy(), [0, 1], [0, 1])}[what]()
    bad = not what.startswith("KFAC") or (heur and exact) or ((heur or exact) and isinstance(damp, tuple))

    def run():
        op = c.KFACInverseLinearOperator(A, damp, use_heuristic_damping=heur, use_exact_damping=exact, cache=cache,
                                         retry_double_precision=retry)
        if bad or 0 in np.atleast_1d(damp):  # (refused by the constructor; without damping it may be singular)
            return None
        return op @ torch.eye(P.D, dtype=F64)

    got = judge(ctx, P, what, run, [ValueError] if bad else [])
    if got is not None:
        from checks.c08 import inverse_dense

        want = inverse_dense(P, refs.kfac_factors(P, "type-2", "expand", not joint), damping=damp,
                             use_heuristic_damping=heur, use_exact_damping=exact)
        zoo.expect(ctx, got, want, "inverse", 1e-7)


def loss_terms(ctx):
    """The inferred number of loss terms per datum must be a whole number."""
    import curvlinops as c

    b = [ctx.choose(f"size {i}", [1, 2, 3], free=True) for i in range(2)]
    t = [ctx.choose(f"terms {i}", [1, 2, 3, 4], free=True) for i in range(2)]
    loss = ctx.choose("loss", LOSSES, free=True)
    given = ctx.choose("number", ["infer", "given"], free=True) == "given"
    num = ctx.choose("num_data", ["infer", "given"], free=True)
    P = Problem("seq", loss, "mean", N=1, C=2)
    P.data = []
    for n, k in zip(b, t):
        X = zoo.rand(n, k, 3, seed=n + k)
        if loss == "ce":
            y = torch.arange(n * k).reshape(n, k) % 2
        else:
            y = (torch.arange(n * k * 2).reshape(n, k, 2) % 3 % 2).to(F64)
        P.data.append((X, y))
    total, N = b[0] * t[0] + b[1] * t[1], sum(b)
    kw = {"num_per_example_loss_terms": max(total // N, 1)} if given else {}
    if num == "given":
        kw["num_data"] = N

    def run():
        return c.KFACLinearOperator(*P.args, fisher_type="type-2", check_deterministic=False, **kw)

    op = judge(ctx, P, f"{total} terms, {N} data", run, [ValueError] if not given and total % N else [])
    if op is not None and t[0] == t[1]:
        M = op @ torch.eye(op.shape[1], dtype=F64)
        ctx.check(torch.isfinite(M).all(), "not finite")


def gradients(ctx):
    """``gradient_and_loss`` needs a loss function."""
    import curvlinops as c

    kind = ctx.choose("operator", ["H", "GGN", "EF", "MC", "KFAC", "J", "JT"], free=True)
    num = ctx.choose("num_data", [None, 3], free=True)
    loss = ctx.choose("loss", LOSSES, free=True)
    used = ctx.choose("used before", [False, True], free=True)
    P = Problem("mlp", loss, "mean", N=3, C=2, sizes=[2, 1])
    cls = {"H": c.HessianLinearOperator, "GGN": c.GGNLinearOperator, "EF": c.EFLinearOperator,
           "MC": c.FisherMCLinearOperator, "KFAC": c.KFACLinearOperator, "J": c.JacobianLinearOperator,
           "JT": c.TransposedJacobianLinearOperator}[kind]
    a = (P.model, P.params, P.data) if kind in ("J", "JT") else P.args
    op = cls(*a, check_deterministic=False, num_data=num)
    if used:
        op @ torch.ones(op.shape[1], dtype=F64)
    judge(ctx, P, f"{kind}: gradient_and_loss", op.gradient_and_loss, [ValueError] if kind in ("J", "JT") else [])


SHAPES = {"4x4": (4, 4), "1x1": (1, 1), "3x4": (3, 4), "4x3": (4, 3), "1x4": (1, 4)}
DISTRIBUTIONS = ["rademacher", "normal", "Rademacher", "gaussian", "", None]


def estimators(ctx):
    """Randomised estimators: shapes x distributions x basis dimensions."""
    import curvlinops as c

    kind = ctx.choose("estimator", ["trace", "diagonal", "hutch++", "norm"], free=True)
    shape = ctx.pick("shape", SHAPES, free=True)
    dist = ctx.choose("distribution", DISTRIBUTIONS, free=True)
    A = np.arange(1.0, shape[0] * shape[1] + 1).reshape(shape) ** 0.5
    A = aslinearoperator(A)
    square = shape[0] == shape[1]
    good = dist in ("rademacher", "normal")
    kw, stage = {}, "sample"
    basis, bdist = 1, "normal"
    if kind == "hutch++":
        basis = ctx.choose("basis_dim", [None, 1, 3, 4, 5, 100], free=True)
        bdist = ctx.choose("basis_distribution", DISTRIBUTIONS, free=True)
        kw = {"basis_dim": basis, "basis_distribution": bdist}
        if shape == (1, 1):
            good = good and (basis or 1) <= 1
    cls = {"trace": c.HutchinsonTraceEstimator, "diagonal": c.HutchinsonDiagonalEstimator,
           "hutch++": c.HutchPPTraceEstimator, "norm": c.HutchinsonSquaredFrobeniusNormEstimator}[kind]

    def attempt(f):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return f(), None
        except Exception as e:
            return None, e

    est, err = attempt(lambda: cls(A, **kw))
    reject_now = (kind != "norm" and not square) or (kind == "hutch++" and (basis or 1) > shape[1])
    if reject_now:
        ctx.check(isinstance(err, ValueError), lambda: f"construction: {type(err).__name__} instead of ValueError")
        return
    late = not good or (kind == "hutch++" and bdist not in ("rademacher", "normal"))
    if late and err is not None:  # rejecting an unknown distribution at construction would be fine, too
        ctx.check(isinstance(err, ValueError), lambda: f"{type(err).__name__} instead of ValueError")
        return
    ctx.check(err is None, lambda: f"construction rejected: {err}")
    val, err = attempt(lambda: est.sample(distribution=dist))
    if late:
        ctx.check(isinstance(err, ValueError), lambda: f"sample: {type(err).__name__} instead of ValueError")
        if kind == "hutch++" and bdist not in ("rademacher", "normal"):
            return
        val, err = attempt(lambda: est.sample(distribution="normal"))  # a rejected call leaves it usable
    ctx.check(err is None, lambda: f"sample rejected: {err}")
    ctx.check(np.shape(val) == ((shape[0],) if kind == "diagonal" else ()) and np.isfinite(val).all(), "sample")


ASSUMPTIONS = ["only the classes of documented errors are judged, not messages or the point at which they are raised",
               "float64; relative tolerance 1e-8 (inverse: 1e-7)"]


def scenarios(tier):
    return [
        ("kfac", kfac, None, "loss x fisher_type x kfac_approx x mc_samples x bias x check"),
        ("layers", layers, None, "supported and unsupported layers x every subset of parameters x order"),
        ("fishers", fishers, None, "operator x loss x output rank x targets x check"),
        ("blocks", blocks, None, "operator x block sizes x loss x inputs x batch_size_fn x num_data x check"),
        ("inverse", inverse, None, "operand x damping x strategy x options"),
        ("loss terms", loss_terms, None, "two mini-batches of every size and length"),
        ("gradients", gradients, None, "operator x loss"),
        ("estimators", estimators, None, "estimator x shape x distribution x basis"),
    ]
