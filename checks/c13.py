"""C13: using an operator leaves model, parameters, data, loss and process state alone."""

import contextlib
import random

import numpy as np
import scipy.sparse.linalg as spla

from checks.common import *
from checks.ops import *
from mc import zoo
from mc.world import Snapshot

OPS = ["construct", "construct+check", "vec", "mat", "list", "adjoint", "scipy", "rscipy", "gradient", "special",
       "invalid"]


class BNNet(nn.Sequential):
    """Normalisation with buffers and dropout (only used in evaluation mode)."""

    def __init__(self, C):
        super().__init__(nn.Linear(3, 3), nn.BatchNorm1d(3), nn.Dropout(0.5), nn.Tanh(), nn.Linear(3, C))


def setup(ctx, free):
    arch = ctx.choose("arch", ["mlp", "conv", "deep", "bn", "seq", "nobias", "strided", "chlast"])
    loss = ctx.choose("loss", LOSSES)
    red = ctx.choose("reduction", REDUCTIONS)
    sel = ctx.choose("params", ["all", "last", "reversed", "frozen"])
    base = "mlp" if arch == "bn" else arch
    return arch, base, loss, red, sel


def scenario(ctx):
    kind = ctx.choose("kind", ALL, free=True)
    arch, base, loss, red, sel = setup(ctx, False)
    sizes = [3] if kind == "ACT" else ctx.choose("batches", [[2, 1], [1, 1, 1]])
    P = Problem(base, loss, red, N=3, C=2, sizes=sizes)
    if arch == "bn":
        P.model = zoo.init(BNNet(2))
        with torch.no_grad():
            P.model[1].running_mean.copy_(torch.tensor([0.1, -0.2, 0.3]))
            P.model[1].running_var.copy_(torch.tensor([0.5, 1.2, 0.8]))
        P.model.eval()
        P.all_params = list(P.model.parameters())
        idx = [0, 1, 4, 5]
    else:
        idx = list(range(len(P.all_params)))
    if kind == "ACT" and arch not in ("mlp", "deep", "bn", "nobias"):
        ctx.skip()
    if arch == "bn" and sel == "frozen":
        ctx.skip()
    if sel == "last":
        idx = idx[-1:]
    elif sel == "reversed":
        idx = idx[::-1]
    elif sel == "frozen":  # the other parameters do not require gradients
        idx = idx[-1:]
        for p in P.all_params[:-1]:
            p.requires_grad_(False)
    P.params = [P.all_params[i] for i in idx]
    if kind == "ACT" and sel == "frozen":
        ctx.skip()
    P.D = sum(p.numel() for p in P.params)

    if arch != "bn" and ctx.choose("mode", ["train", "eval", "mixed"]) != "train":
        P.model.eval()
        if ctx.path[-1][3] == "mixed":
            list(P.model.children())[-1].train()
    grads = ctx.choose(".grad", ["set", "none", "some", "zero", "same tensor"])
    for i, p in enumerate(P.all_params):
        if p.requires_grad and (grads == "set" or (grads == "some" and i % 2)):
            p.grad = torch.full_like(p, 0.25 * (i + 1))
        elif p.requires_grad and grads == "zero":
            p.grad = torch.zeros_like(p)
        elif p.requires_grad and grads == "same tensor":  # parameters and their gradients in one piece of memory
            p.grad = p.detach()
    calls = []
    if ctx.choose("user hooks", ["forward", "none", "pre+param"]) != "none":
        sub = next(k for k in P.model.modules() if isinstance(k, (nn.Linear, nn.Conv2d)))
        sub.register_forward_hook(lambda m, i, o: calls.append("f"))
        if ctx.path[-1][3] == "pre+param":
            sub.register_forward_pre_hook(lambda m, i: calls.append("p"))
            if P.all_params[-1].requires_grad:
                P.all_params[-1].register_hook(lambda g: None)
    torch.manual_seed(3)
    np.random.seed(4)
    random.seed(5)

    snap = Snapshot(P)
    ops = [ctx.choose("op1", OPS, free=True), ctx.choose("op2", ["vec", "list", "scipy", "construct", "special"])]
    op = None
    for what in ops:
        if what == "construct":
            op = make_op(kind, P)
        elif what == "construct+check":
            op = make_op(kind, P, check_deterministic=True)
            # the safeguard draws its test vector from the global generator
            torch.manual_seed(3)
        else:
            op = make_op(kind, P) if op is None else op
        Din, Dout = op.shape[1], op.shape[0]
        ins, outs = spaces(kind, P)
        M = zoo.operand(Din, 2)
        if what == "vec":
            op @ M[:, 0]
        elif what == "mat":
            op @ M
        elif what == "list":
            op @ zoo.to_list(M, ins)
        elif what == "adjoint":
            op.adjoint() @ zoo.operand(Dout, 2)
        elif what == "scipy":
            op.to_scipy() @ M.numpy()
        elif what == "rscipy":
            op.to_scipy().rmatvec(zoo.operand(Dout, 1)[:, 0].numpy())
        elif what == "gradient":
            if kind not in NO_LOSS + INVS + ["ACT"]:
                op.gradient_and_loss()
        elif what == "special":
            if kind in KFACS:
                op.trace, op.frobenius_norm, op.det, op.logdet
                op.load_state_dict(op.state_dict())
            elif kind in INVS:
                op.load_state_dict(op.state_dict())
            else:
                op @ torch.eye(Din, dtype=P.dtype)
        elif what == "invalid":
            try:
                op @ torch.zeros(Din + 1)
            except ValueError:
                pass
        d = snap.difference()
        ctx.check(d is None, f"{what} changed {d}")
    # a later training step of the user still works and sees the same loss
    for p in P.all_params:
        p.grad = None
    want = torch.autograd.grad(P.loss_func(P.model(P.X), P.y), [p for p in P.all_params if p.requires_grad])
    P.loss_func(P.model(P.X), P.y).backward()
    ctx.check(all(torch.equal(a, p.grad) for a, p in zip(want, [p for p in P.all_params if p.requires_grad])),
              "the user's own backward pass is affected")


def repeat(ctx):
    """Repeating an operation gives the same answer, whatever happened in between."""
    kind = ctx.choose("kind", ALL, free=True)
    between = ctx.choose("between", ["nothing", "training step undone", "zero_grad", "other operator", "rng", "eval",
                                     "user backward", "copy", "gc", "threads"], free=True)
    loss = ctx.choose("loss", LOSSES)
    arch = ctx.choose("arch", ["mlp", "nobias", "deep"])
    P = Problem(arch, loss, "mean", N=3, C=2, sizes=[3] if kind == "ACT" else [2, 1])
    op = make_op(kind, P)
    M = zoo.operand(op.shape[1], 2)
    first = op @ M
    if between == "training step undone":
        keep = [p.detach().clone() for p in P.all_params]
        opt = torch.optim.SGD(P.all_params, lr=0.1, momentum=0.9)
        P.loss_func(P.model(P.X), P.y).backward()
        opt.step()
        with torch.no_grad():
            for p, k in zip(P.all_params, keep):
                p.copy_(k)
    elif between == "zero_grad":
        P.model.zero_grad()
    elif between == "other operator":
        for other in ("GGN", "KFAC-mc", "MC", "J"):
            make_op(other, P, check_deterministic=True) @ torch.ones(P.D, dtype=P.dtype)
    elif between == "rng":
        torch.manual_seed(991)
        np.random.seed(991)
        torch.rand(5)
    elif between == "eval":
        P.model.eval()
    elif between == "user backward":
        P.loss_func(P.model(P.X), P.y).backward()
        with torch.no_grad():
            P.model(P.X)
    elif between == "copy":
        import copy

        copy.deepcopy(P.model)
    elif between == "gc":
        import gc

        gc.collect()
    elif between == "threads":
        import threading

        out = []
        t = threading.Thread(target=lambda: out.append(op @ M))
        t.start()
        t.join()
        zoo.expect(ctx, out[0], first, "product in another thread", rtol=1e-7)
    zoo.expect(ctx, op @ M, first, f"second product after {between}", rtol=1e-7 if kind in INVS else 1e-9)


CONTEXTS = {"no_grad": torch.no_grad, "enable_grad": torch.enable_grad,
            "grad off": lambda: torch.autograd.set_grad_enabled(False),
            "anomaly": lambda: torch.autograd.set_detect_anomaly(True),
            "multithreading off": lambda: torch.autograd.set_multithreading_enabled(False),
            "raise on overflow": lambda: np.errstate(over="raise", invalid="raise", divide="raise")}


@contextlib.contextmanager
def frozen(params):
    """The user has frozen (some of) the parameters the operator is about."""
    for p in params:
        p.requires_grad_(False)
    try:
        yield
    finally:
        for p in params:
            p.requires_grad_(True)


def contexts(ctx):
    """Operations inside of the user's own autograd contexts: they may fail there, but must not change the mode."""
    kind = ctx.choose("kind", ALL, free=True)
    where = ctx.choose("context", [*CONTEXTS, "all parameters frozen", "first parameter frozen"], free=True)
    what = ctx.choose("operation", ["vec", "construct", "construct+check", "adjoint", "scipy", "gradient", "special",
                                    "iterate"], free=True)
    again = ctx.choose("how often", [1, 2])
    loss = ctx.choose("loss", LOSSES)
    arch = ctx.choose("arch", ["mlp", "nobias", "deep"])
    P = Problem(arch, loss, "mean", N=3, C=2, sizes=[3] if kind == "ACT" else [2, 1])
    if (what in ("gradient", "iterate") and kind in NO_LOSS + INVS + ["ACT"]) or (what == "special" and kind not in KFACS):
        ctx.skip()
    ready = None if what.startswith("construct") else make_op(kind, P)

    def run():
        op = ready if ready is not None else make_op(kind, P, check_deterministic=what == "construct+check")
        if what == "vec":
            return op @ zoo.operand(op.shape[1], 2)
        if what == "adjoint":
            return op.adjoint() @ zoo.operand(op.shape[0], 2)
        if what == "scipy":
            return torch.from_numpy(op.to_scipy() @ zoo.operand(op.shape[1], 2).numpy())
        if what == "gradient":
            return zoo.flat(op.gradient_and_loss()[0])
        if what == "iterate":
            return torch.cat([out[1].detach().reshape(-1) for out in op.data_prediction_loss_gradient()])
        if what == "special":
            return torch.stack([torch.as_tensor(op.trace), torch.as_tensor(op.frobenius_norm)])
        return op @ zoo.operand(op.shape[1], 2) if where not in ("no_grad", "grad off") else None

    rng = what != "construct+check"  # the safeguard draws its test vector from the global generator
    before = Snapshot(P, rng=rng)
    inside = None
    for _ in range(again):
        enter = CONTEXTS.get(where) or (lambda: frozen(P.params if where.startswith("all") else P.params[:1]))
        with enter():
            within = Snapshot(P, rng=rng)
            try:
                inside = run()
            except RuntimeError:  # differentiation may be switched off
                if where not in ("no_grad", "grad off") and "frozen" not in where:
                    raise
            d = within.difference()
            ctx.check(d is None, f"{what} under {where} changed {d}")
        d = before.difference()
        ctx.check(d is None, f"{what} under {where}: afterwards, {d} had changed")
    outside = run()
    if inside is not None and outside is not None:
        zoo.expect(ctx, inside, outside, f"{what} under {where}", rtol=1e-7)
        ctx.check(not inside.requires_grad, "the result is attached to a graph")


DENSE = np.diag([3.0, 2.0, 1.0, 0.5]) + 0.1 * np.ones((4, 4))


class Recording(spla.LinearOperator):
    """A user's operator over an array, in SciPy's interface."""

    def __init__(self, A):
        super().__init__(A.dtype, A.shape)
        self.A = A

    def _matmat(self, X):
        return self.A @ X

    def _rmatmat(self, X):
        return self.A.T @ X

    def _matvec(self, x):
        return self.A @ x.reshape(-1)

    def _rmatvec(self, x):
        return self.A.T @ x.reshape(-1)


def scipy_level(ctx):
    """The operators, estimators and spectra in SciPy's interface leave operands and settings alone."""
    import curvlinops as c

    what = ctx.choose("object", ["CG", "LSMR", "Neumann", "Neumann preconditioned", "submatrix", "outer", "export", "export inverse",
                                 "hutchinson trace", "hutchinson diagonal", "hutch++", "frobenius", "lanczos", "density",
                                 "log density", "cached density", "cached log density"], free=True)
    use = ctx.choose("use", ["vec", "mat", "column", "rvec", "construct"], free=True)
    layout = ctx.choose("operand", ["read-only", "plain", "fortran", "strided", "float32", "int"], free=True)
    errs = ctx.choose("floating-point errors", ["default", "raise", "ignore"], free=True)
    dt = np.float32 if ctx.choose("matrix", ["float64", "float32"], free=True) == "float32" else float
    P = Problem("linear", "mse", "mean", N=3, C=2, sizes=[2, 1])
    D = DENSE.astype(dt)
    if "Neumann" in what:
        D = D / 6
    A = Recording(D)
    d = P.D if what.startswith("export") else 4
    defining = {"A": D}
    x0, rows, cols = np.array([0.3, -1.0, 2.0, 0.5]), [3, 0, 1], [0, 2]
    terms = [zoo.rand(4, 2, seed=5).numpy()]
    coefs = np.array([0.5, 2.0])
    pre = np.diag([0.5, 0.25, 0.5, 0.25])
    defining.update(x0=x0, rows=rows, cols=cols, U=terms[0], coefs=coefs, pre=pre)
    K = {"vec": d, "rvec": d, "mat": (d, 3), "column": (d, 1), "construct": d}[use]
    X = zoo.rand(*(K if isinstance(K, tuple) else (K,)), seed=6).numpy()
    if what == "submatrix":
        X = X[:2] if use != "rvec" else X[:3]
    if layout == "int":
        X = np.arange(X.size).reshape(X.shape) - 1
    elif layout == "float32":
        X = X.astype(np.float32)
    elif layout == "fortran":
        X = np.asfortranarray(X)
    elif layout == "strided":
        X = np.repeat(X, 2, axis=0)[::2]
    elif layout == "read-only":
        X.setflags(write=False)
    is_op = what in ("CG", "LSMR", "Neumann", "Neumann preconditioned", "submatrix", "outer", "export", "export inverse")
    if not is_op and (layout != "read-only" or use not in ("vec", "construct")):
        ctx.skip()
    copies = {k: np.array(v, copy=True) for k, v in defining.items()}
    X0 = X.copy()
    torch.manual_seed(3), np.random.seed(4), random.seed(5)
    old = np.geterr()
    try:
        if errs != "default":
            np.seterr(over=errs, invalid=errs, divide=errs, under="ignore")
        snap = Snapshot(P, rng=is_op)
        if what == "CG":
            op = c.CGInverseLinearOperator(A)
            op.set_cg_hyperparameters(x0=x0, M=pre)
        elif what == "LSMR":
            op = c.LSMRInverseLinearOperator(A)
            op.set_lsmr_hyperparameters(x0=x0, maxiter=10)
        elif what == "Neumann":
            op = c.NeumannInverseLinearOperator(A, num_terms=5)
        elif what == "Neumann preconditioned":
            op = c.NeumannInverseLinearOperator(A, num_terms=5, scale=0.7)
        elif what == "submatrix":
            op = c.SubmatrixLinearOperator(A, rows, cols)
        elif what == "outer":
            op = outer_product(c, terms[0], coefs)
        elif what == "export":
            op = make_op("GGN", P).to_scipy()
        elif what == "export inverse":
            op = make_op("KINV", P).to_scipy()
        if is_op:
            if use in ("vec", "mat", "column"):
                op @ X
            elif use == "rvec":
                if what in ("CG", "LSMR") or "Neumann" in what:
                    ctx.skip()
                op.rmatvec(X)
        else:
            f = {"hutchinson trace": lambda: c.HutchinsonTraceEstimator(A).sample(),
                 "hutchinson diagonal": lambda: c.HutchinsonDiagonalEstimator(A).sample(),
                 "hutch++": lambda: c.HutchPPTraceEstimator(A, basis_dim=1).sample(),
                 "frobenius": lambda: c.HutchinsonSquaredFrobeniusNormEstimator(A).sample(),
                 "lanczos": lambda: spectral(c, "fast_lanczos", A),
                 "density": lambda: spectral(c, "density", A), "log density": lambda: spectral(c, "log density", A),
                 "cached density": lambda: spectral(c, "cached", A), "cached log density": lambda: spectral(c, "cached log", A)}
            f[what]()
        diff = snap.difference()
        ctx.check(diff is None, lambda: f"{what} changed {diff}")
    finally:
        np.seterr(**old)
    ctx.check(np.array_equal(X, X0), f"{what}: the operand was modified")
    for k, v in copies.items():
        ctx.check(np.array_equal(np.asarray(defining[k]), v), f"{what}: {k} was modified")


def outer_product(c, U, coefs):
    from curvlinops.outer import OuterProductLinearOperator

    return OuterProductLinearOperator(coefs, U)


def spectral(c, what, A):
    from curvlinops.papyan2020traces.spectrum import fast_lanczos

    if what == "fast_lanczos":
        return fast_lanczos(A, 3)
    if what == "density":
        return c.lanczos_approximate_spectrum(A, 3, num_points=8, num_repeats=2)
    if what == "log density":
        return c.lanczos_approximate_log_spectrum(A, 3, num_points=8, num_repeats=2)
    cls = c.LanczosApproximateSpectrumCached if what == "cached" else c.LanczosApproximateLogSpectrumCached
    obj = cls(A, 3)
    obj.approximate_spectrum(num_repeats=2, num_points=8) if what == "cached" else obj.approximate_log_spectrum(
        num_repeats=2, num_points=8)


ASSUMPTIONS = ["the model's forward pass itself is deterministic and free of side effects",
               "the determinism safeguard may advance torch's global generator (it draws a test vector)"]


def scenarios(tier):
    return [
        ("snapshots", scenario, 1 if tier == "quick" else 2,
         "operator x operation x second operation; deviations over architecture, loss, reduction, parameter "
         "selection, mode, .grad, user hooks"),
        ("SciPy level", scipy_level, None,
         "inverse, sub-matrix, outer product, export, estimator, spectrum x use x memory layout of the operand x "
         "floating-point error handling x matrix type"),
        ("contexts", contexts, 0 if tier == "quick" else 2,
         "operator x the user's autograd context or error handling x operation (repetition, loss, architecture as "
         "deviations)"),
        ("repeats", repeat, 1, "operator x interleaved activity of the user"),
    ]
