"""C17: operators are live views of parameters and data; KFAC is a consistent snapshot."""

import numpy as np

from checks.common import *
from checks.ops import *
from mc import refs, rng, zoo
from mc.draws import outcomes

LIVE = ["H", "H-blocks", "GGN", "EF", "MC", "J", "JT", "J-adj", "ACT"]
MUTATIONS = ["optimizer", "copy_", ".data", "load_state_dict", "data in-place", "labels in-place", "buffer", "mode", "scale one", "replace batch"]
OBSERVE = ["product", "export", "adjoint", "gradient"]


class Scaled(nn.Module):
    """A buffer and the training mode influence the predictions."""

    def __init__(self):
        super().__init__()
        self.register_buffer("s", torch.ones(2, dtype=F64))

    def forward(self, x):
        return x * self.s * (1.0 if self.training else 0.6)


def problem(kind, loss, red, sizes, sel):
    P = Problem("mlp", loss, red, N=sum(sizes), C=2, sizes=sizes)
    m = P.model
    P.model = nn.Sequential(m[0], m[1], m[2], Scaled())
    P.X, P.y = P.X.clone(), P.y.clone()
    P.data = zoo.split(P.X, P.y, sizes)  # (views of X and y)
    P.params = [P.all_params[i] for i in sel]
    P.select = sel
    off = np.cumsum([0] + [p.numel() for p in P.all_params])
    P.index = [j for i in sel for j in range(off[i], off[i + 1])]
    P.D = len(P.index)
    P.key = ("live", P.key)
    return P


def mutate(P, how, k):
    """k-th mutation of the history."""
    if how == "optimizer":
        opt = torch.optim.Adam(P.all_params, lr=0.05)
        opt.zero_grad()
        P.loss_func(P.model(P.X), P.y).backward()
        opt.step()
        opt.zero_grad()
        return
    with torch.no_grad():
        if how == "copy_":
            for i, p in enumerate(P.all_params):
                p.copy_(zoo.rand(*p.shape, seed=200 + 10 * k + i, dtype=p.dtype))
        elif how == ".data":
            for i, p in enumerate(P.all_params):
                p.data = zoo.rand(*p.shape, seed=300 + 10 * k + i, dtype=p.dtype)
        elif how == "load_state_dict":
            P.model.load_state_dict({n: v * 0.8 + 0.05 * (k + 1) for n, v in P.model.state_dict().items()})
        elif how == "data in-place":
            for X, _ in P.data:
                X.mul_(-0.7).add_(0.1 * (k + 1))
        elif how == "labels in-place":
            for _, y in P.data:
                if P.lossname == "mse":
                    y.mul_(-1.3).add_(0.2)
                else:
                    y.copy_(1 - y)
        elif how == "replace batch":  # by another of the same size, in the user's list
            X, y = P.data[-1]
            P.data[-1] = (0.5 * X.flip(1) - 0.2 * (k + 1), 0.3 * y - 1.0 if P.lossname == "mse" else 1 - y)
        elif how == "buffer":
            P.model[3].s.copy_(torch.tensor([0.6 + 0.1 * k, 1.4]))
        elif how == "mode":
            P.model.train(not P.model.training)
        elif how == "scale one":
            P.params[-1].mul_(1.5)
    P.X, P.y = (torch.cat(ts) for ts in zip(*P.data))


def live(depth, last_free):
    def scenario(ctx):
        kind = ctx.choose("kind", LIVE, free=True)
        loss = ctx.choose("loss", LOSSES)
        red = ctx.choose("reduction", REDUCTIONS)
        sizes = [2] if kind == "ACT" else ctx.choose("batches", [[1, 1], [2], [1, 2]])
        sel = ctx.choose("params", [[0, 1, 2, 3], [3, 0], [2]])
        if kind == "ACT":
            sel = [0, 1, 2, 3]
        early = ctx.choose("views taken", ["after first product", "at the start"])
        P = problem(kind, loss, red, sizes, sel)
        op = make_op(kind, P, check_deterministic=ctx.choose("check", [False, True]))
        if early == "after first product":
            op @ zoo.operand(op.shape[1], 1)
        views = {"product": op, "export": op.to_scipy(), "adjoint": op.adjoint()}
        M, Mt = zoo.operand(op.shape[1], 2), zoo.operand(op.shape[0], 2)
        cache = {}

        def now():
            if "m" not in cache:
                fresh(P)
                ref = reference(kind, P)
                if ref is None:
                    ref = make_op(kind, P) @ torch.eye(op.shape[1], dtype=P.dtype)
                cache["m"] = ref
            return cache["m"]

        def observe(what):
            if what == "product":
                got, want = op @ M, now() @ M
            elif what == "export":
                got, want = torch.from_numpy(views["export"] @ M.numpy()), now() @ M
            elif what == "adjoint":
                got, want = views["adjoint"] @ Mt, now().T @ Mt
            else:
                if kind in NO_LOSS + ["ACT"]:
                    return
                g, L = op.gradient_and_loss()
                total = P.loss_func(P.model(P.X), P.y)
                gs = torch.autograd.grad(total, P.params)
                got = torch.cat([zoo.flat(g), L.reshape(1)])
                want = torch.cat([zoo.flat(gs), total.detach().reshape(1)])
            zoo.expect(ctx, got, want, f"{kind}: {what}", rtol=1e-7, atol=1e-9)

        for k in range(depth):
            ev = ctx.choose(f"event{k}", MUTATIONS + OBSERVE, free=True)
            if ev in OBSERVE:
                observe(ev)
            else:
                mutate(P, ev, k)
                cache.clear()
        # the last event is a mutation of every kind, seen through every view
        last = ctx.choose("last", MUTATIONS + ["none"], free=last_free)
        if last != "none":
            mutate(P, last, depth)
            cache.clear()
        for ev in OBSERVE:
            observe(ev)

    return scenario


def single(ctx):
    """One update of every kind between two products, for a single mini-batch (where results could be re-used)."""
    kind = ctx.choose("kind", LIVE, free=True)
    how = ctx.choose("mutation", MUTATIONS, free=True)
    loss = ctx.choose("loss", LOSSES, free=True)
    sel = ctx.choose("params", [[0, 1, 2, 3], [3, 0], [2]], free=True)
    sizes = ctx.choose("batches", [[2], [1, 1]], free=True)
    if kind == "ACT" and (len(sel) < 4 or len(sizes) > 1):
        ctx.skip()
    P = problem(kind, loss, "mean", sizes, sel)
    op = make_op(kind, P)
    view = ctx.choose("view", ["operator", "adjoint", "export"], free=True)
    if view == "adjoint":
        op = op.adjoint()
    n = op.shape[1]
    M = zoo.operand(n, 2)
    f = (lambda: torch.from_numpy(exported @ M.numpy())) if view == "export" else (lambda: op @ M)
    exported = op.to_scipy() if view == "export" else None
    f()
    for k in range(2):
        mutate(P, how, k)
        fresh(P)
        ref = reference(kind, P)
        if ref is None:
            ref = make_op(kind, P) @ torch.eye(P.D, dtype=P.dtype)
        ref = ref.T if view == "adjoint" else ref
        zoo.expect(ctx, f(), ref @ M, f"{kind}: product after update {k}", rtol=1e-7, atol=1e-9)
    fresh(P)


BUILT = ["submatrix", "submatrix columns", "neumann", "cg", "lsmr", "trace", "diagonal", "norm", "hutch++"]


def built(ctx):
    """Everything that can be built on top of an operator, with the same operand before and after the updates."""
    import curvlinops as c
    from scipy.sparse.linalg import aslinearoperator

    kind = ctx.choose("kind", LIVE, free=True)
    what = ctx.choose("built", BUILT, free=True)
    how = ctx.choose("mutation", MUTATIONS, free=True)
    uses = ctx.choose("uses before", [1, 2], free=True)
    loss = ctx.choose("loss", LOSSES)
    P = problem(kind, loss, "mean", [2] if kind == "ACT" else ctx.choose("batches", [[2], [1, 1]]), [0, 1, 2, 3])
    op = make_op(kind, P).to_scipy()
    m, n = op.shape
    if m != n and what not in ("submatrix", "submatrix columns", "norm") or what == "cg" and kind not in PSD:
        ctx.skip()
    state = {}

    def dense():
        fresh(P)
        ref = reference(kind, P)
        if ref is None:
            ref = make_op(kind, P) @ torch.eye(n, dtype=P.dtype)
        return ref.numpy()

    shift = 3.0 * max(1.0, np.linalg.norm(dense(), 2)) if what == "lsmr" else 0.5
    rows, cols = [m - 1, *range(m // 2)] if m > 1 else [0], [n - 1, *range(n // 2)] if n > 1 else [0]
    v = zoo.operand(len(cols) if "submatrix" in what else n, 2).numpy()
    v = v if what == "submatrix columns" else v[:, 0].copy()
    I = np.eye(n)

    def build(A, live):
        if "submatrix" in what:
            S = c.SubmatrixLinearOperator(A, rows, cols) if live else A[np.ix_(rows, cols)]
            return lambda: S @ v
        if what == "neumann":
            if live:
                N = c.NeumannInverseLinearOperator(A, num_terms=3, scale=0.1)
                return lambda: N @ v
            return lambda: 0.1 * sum(np.linalg.matrix_power(I - 0.1 * A, k) for k in range(4)) @ v
        if what in ("cg", "lsmr"):
            if not live:
                return lambda: np.linalg.solve(A + shift * I, v)
            B = A + shift * aslinearoperator(I)
            if what == "cg":
                C = c.CGInverseLinearOperator(B)
                C.set_cg_hyperparameters(tol=1e-13, atol=1e-300, maxiter=2000)
            else:
                C = c.LSMRInverseLinearOperator(B)
                C.set_lsmr_hyperparameters(atol=1e-15, btol=1e-15, conlim=1e12, maxiter=2000)
            return lambda: C @ v
        cls = {"trace": c.HutchinsonTraceEstimator, "diagonal": c.HutchinsonDiagonalEstimator,
               "norm": c.HutchinsonSquaredFrobeniusNormEstimator, "hutch++": c.HutchPPTraceEstimator}[what]
        kw = {"basis_dim": 2} if what == "hutch++" else {}
        A = A if live else aslinearoperator(A)

        def sample():
            with rng.NumpyDraws(outcomes()):
                # (a Hutch++ estimator keeps its first subspace by design)
                return np.asarray((state.setdefault("est", cls(A, **kw)) if live and not kw else cls(A, **kw)).sample())

        return sample

    f = build(op, True)
    for _ in range(uses):
        f()
    for k in range(2):
        if how == "mode" and what == "lsmr":
            ctx.skip()
        mutate(P, how, k)
        A = dense()
        scale = max(1.0, np.abs(A).max()) ** (2 if what == "norm" else 1) * n
        if what == "hutch++":
            sv = np.linalg.svd(A, compute_uv=False)
            if sv.min() < 1e-6 * sv.max():
                ctx.skip()
        if what == "lsmr" and np.linalg.norm(A, 2) > shift / 2:
            ctx.skip()
        want = build(A, False)()
        for _ in range(2):
            err = np.abs(f() - want).max()
            ctx.check(bool(err <= 1e-6 * scale), f"{kind}: {what} after update {k} differs by {err:.2e}")
    fresh(P)


def snapshot(ctx):
    """Once used, every view of a KFAC shows the same matrix, whatever the parameters do."""
    from curvlinops import KFACInverseLinearOperator

    kind = ctx.choose("kind", KFACS, free=True)
    first = ctx.choose("first use", ["product", "export", "adjoint", "trace", "state_dict"], free=True)
    how = ctx.choose("mutation", MUTATIONS, free=True)
    loss = ctx.choose("loss", LOSSES)
    full = [0, 1, 2, 3]
    sel = ctx.choose("params", [full, [1], [3], [1, 3], [0], [0, 2], [2], [3, 0]] if how in ("copy_", "data in-place") else [full],
                     free=True)
    P = problem(kind, loss, "mean", [1, 2], sel)
    ref = reference(kind, P)
    op = make_op(kind, P)
    if ref is None:
        ref = make_op(kind, P) @ torch.eye(P.D, dtype=P.dtype)
    fresh(P)
    M = zoo.operand(P.D, 2)
    inverse = KFACInverseLinearOperator(make_op(kind, P), damping=0.3) @ M
    {"product": lambda: op @ M, "export": lambda: op.to_scipy() @ M.numpy(), "adjoint": lambda: op.adjoint() @ M,
     "trace": lambda: op.trace, "state_dict": lambda: (op @ M, op.state_dict())}[first]()
    mutate(P, how, 0)
    order = ctx.choose("then", ["forward", "backward"])
    views = {
        "product": lambda: (op @ M, ref @ M),
        "export": lambda: (torch.from_numpy(op.to_scipy() @ M.numpy()), ref @ M),
        "adjoint": lambda: (op.adjoint() @ M, ref @ M),
        "trace": lambda: (op.trace, ref.trace()),
        "norm": lambda: (op.frobenius_norm, ref.norm()),
        "logdet": lambda: (op.det, torch.linalg.det(ref)),
        "inverse": lambda: (KFACInverseLinearOperator(op, damping=0.3) @ M, inverse),
    }
    names = list(views) if order == "forward" else list(views)[::-1]
    for n in names:
        got, want = views[n]()
        zoo.expect(ctx, torch.as_tensor(got).double(), torch.as_tensor(want).double(), f"{kind}: {n}", rtol=1e-7,
                   atol=1e-9)


ASSUMPTIONS = ["updates change parameters and data in place (the tensors handed to the operator)",
               "KFAC is evaluated at its first use and kept (its documented caching)"]


def scenarios(tier):
    one = ("single", single, None, "operator x update x view x loss x parameters x one or two mini-batches: product, "
           "update, product, update, product")
    tops = ("built", built, 0 if tier == "quick" else 1,
            "operator x sub-matrix, inverse or estimator built on its export x update x earlier uses; deviations over loss, batches")
    snap = ("snapshot", snapshot, None, "KFAC x first use x update x every view")
    if tier == "quick":
        return [
            ("live", live(2, False), 0,
             "operator x every history of 2 updates/observations, then an update seen through every view"),
            ("live, deviations", live(1, False), 1,
             "the same with histories of length 1; deviations over loss, reduction, batches, parameters, last update"),
            one,
            tops,
            snap,
        ]
    return [
        ("live", live(3, False), 0, "operator x every history of 3 updates/observations, then every view"),
        ("live, deviations", live(2, True), 1,
         "histories of length 2 and every last update; deviations over loss, reduction, batches, parameters"),
        one,
        tops,
        snap,
    ]
