"""C30: the process's default device and default data type do not influence any operator."""

from contextlib import contextmanager

import numpy as np

from checks.c08 import DAMPINGS
from checks.c10 import through_file
from checks.common import *
from checks.ops import *
from mc import refs, zoo

AMBIENT = {"meta device": ("meta", None), "float64": (None, torch.float64), "bfloat16": (None, torch.bfloat16),
           "float16": (None, torch.float16), "meta device, float64": ("meta", torch.float64)}
PHASES = ["always", "construction only", "use only", "second use only"]


@contextmanager
def ambient(name, active=True):
    device, dtype = AMBIENT[name] if active else (None, None)
    old = torch.get_default_dtype()
    try:
        if device is not None:
            torch.set_default_device(device)
        if dtype is not None:
            torch.set_default_dtype(dtype)
        yield
    finally:
        torch.set_default_device(None)
        torch.set_default_dtype(old)


def tensors_of(x):
    if torch.is_tensor(x):
        return [x]
    if isinstance(x, (list, tuple)):
        return [t for e in x for t in tensors_of(e)]
    if hasattr(x, "values"):
        return [t for e in x.values() for t in tensors_of(e)]
    return [torch.as_tensor(x, device="cpu")]


def same(ctx, got, want, what, dtype=F64):
    """Same devices, data types and values, tensor by tensor."""
    got, want = tensors_of(got), tensors_of(want)
    ctx.check(len(got) == len(want), f"{what}: {len(got)} tensors instead of {len(want)}")
    for g, w in zip(got, want):
        ctx.check(g.device == w.device, f"{what}: result on device {g.device}, expected {w.device}")
        ctx.check(g.dtype == w.dtype, f"{what}: result of type {g.dtype}, expected {w.dtype}")
        tol = dict(rtol=1e-9, atol=1e-11) if w.dtype == F64 else dict(rtol=3e-4, atol=1e-6)
        zoo.expect(ctx, g.detach().double(), w.detach().double(), what, **tol)


def uses(kind, P, opkw):
    """name -> function of an operator (all public results)."""
    op = make_op(kind, P, **opkw)
    M, Mt = zoo.operand(op.shape[1], 2, P.dtype), zoo.operand(op.shape[0], 2, P.dtype)
    ins, outs = spaces(kind, P)
    L, v, N = zoo.to_list(M, ins), M[:, 0].clone(), M.numpy()
    eye = torch.eye(op.shape[1], dtype=P.dtype)
    u = {
        "product": lambda o: o @ M,
        "identity": lambda o: o @ eye,
        "vector": lambda o: o @ v,
        "list": lambda o: o @ L,
        "list of vectors": lambda o: o @ zoo.to_list(v, ins),
        "adjoint": lambda o: o.adjoint() @ Mt,
        "export": lambda o: torch.from_numpy(o.to_scipy() @ N),
        "export, transposed": lambda o: torch.from_numpy(o.to_scipy().T @ Mt.numpy()),
        "export as float32": lambda o: torch.from_numpy(o.to_scipy(np.float32) @ N),
    }
    if kind not in NO_LOSS + INVS:
        u["gradient and loss"] = lambda o: o.gradient_and_loss()
    if kind in KFACS:
        u |= {"trace": lambda o: o.trace, "determinant": lambda o: o.det, "log-determinant": lambda o: o.logdet,
              "norm": lambda o: o.frobenius_norm}
    return u


def values(ctx):
    kind = ctx.choose("kind", [k for k in ALL if k != "ACT"], free=True)
    name = ctx.choose("ambient", list(AMBIENT), free=True)
    phase = ctx.choose("phase", PHASES)
    P = choose_problem(ctx, dtypes=(F64, torch.float32), more_sizes=False, Cs=(2, 1, 3), seeds=(0, 1))
    kw = dict(check_deterministic=ctx.choose("check", [False, True]))
    if kind in KFACS + INVS and P.arch in ("norm", "func", "odd", "tied", "gated", "embed", "bn"):
        ctx.skip()
    if kind == "H-blocks" and P.arch == "tied":
        ctx.skip()
    if kind not in INVS:
        if ctx.choose("known size", [False, True]):
            kw["num_data"] = P.N
    todo = uses(kind, P, kw)
    what = ctx.choose("use", list(todo))
    moved = ctx.choose("moved to its own device", ["never", "before use", "between uses"]) if kind not in INVS + [
        "J-adj", "JT-adj"] else "never"
    f = todo[what]
    want = f(make_op(kind, P, **kw))
    with ambient(name, phase in ("always", "construction only")):
        op = make_op(kind, P, **kw)
    if phase == "second use only":
        same(ctx, f(op), want, f"{kind}: {what}, before")
    with ambient(name, phase != "construction only"):
        if moved == "before use":
            op.to_device(torch.device("cpu"))
        got = f(op)
        if moved == "between uses":
            op.to_device(torch.device("cpu"))
    same(ctx, got, want, f"{kind}: {what} under default {name}")
    same(ctx, f(op), want, f"{kind}: {what}, afterwards")


def kfacs(ctx):
    """Every kind of layer, convolution and Fisher of a KFAC, and its inverse."""
    from curvlinops import KFACInverseLinearOperator, KFACLinearOperator

    fisher = ctx.choose("fisher", ["type-2", "mc", "empirical", "forward-only"], free=True)
    approx = ctx.choose("approx", ["expand", "reduce"], free=True)
    name = ctx.choose("ambient", ["meta device", "float64", "bfloat16"], free=True)
    arch = ctx.choose("arch", ["conv", "mlp", "nobias", "seq", "grid", "twins", "mixed"] + ["conv-" + c for c in zoo.CONV if c != "same2"])
    loss = ctx.choose("loss", LOSSES)
    red = ctx.choose("reduction", REDUCTIONS)
    separate = ctx.choose("separate", [True, False])
    dt = ctx.choose("dtype", [F64, torch.float32])
    damping = ctx.choose("damping", list(DAMPINGS))
    use = ctx.choose("use", ["product", "inverse", "restored", "inverse restored", "restored from file", "constructed"])
    P = Problem(arch, loss, red, N=3, C=2, sizes=[2, 1], dtype=dt)
    M = zoo.operand(P.D, 2, dt)

    def build(**kw):
        return KFACLinearOperator(P.model, P.loss_func, P.params, P.data, fisher_type=fisher, kfac_approx=approx,
                                  separate_weight_and_bias=separate, check_deterministic=False, **kw)

    def run():
        A = build()
        if use == "product":
            return A @ M
        if use == "inverse":
            return KFACInverseLinearOperator(A, **DAMPINGS[damping]) @ M
        if use.startswith("inverse"):
            inv = KFACInverseLinearOperator(A, **DAMPINGS[damping])
            first = inv @ M
            other = KFACInverseLinearOperator(build(), damping=1.0)
            other.load_state_dict(inv.state_dict())
            return [first, other @ M]
        A @ M
        state = A.state_dict()
        if use == "restored from file":
            state = through_file(state)
        if use == "constructed":
            B = KFACLinearOperator.from_state_dict(state, P.model, P.params, P.data)
        else:
            B = build()
            B.load_state_dict(state)
        return [B @ M, B.trace, B.frobenius_norm]

    want = run()
    with ambient(name):
        got = run()
    same(ctx, got, want, f"KFAC ({use}) under default {name}")


def activations(ctx):
    from curvlinops.experimental import ActivationHessianLinearOperator

    name = ctx.choose("ambient", list(AMBIENT), free=True)
    layer = ctx.choose("layer", [("0", "output", 0), ("1", "input", 0), ("1", "output", 0), ("2", "input", 0),
                                 ("2", "output", 0)], free=True)
    loss = ctx.choose("loss", LOSSES, free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    dt = ctx.choose("dtype", [F64, torch.float32], free=True)
    check = ctx.choose("check", [False, True], free=True)
    how = ctx.choose("use", ["product", "export", "adjoint", "list"], free=True)
    P = Problem("mlp", loss, red, N=3, C=2, sizes=[3], dtype=dt)

    def run():
        op = ActivationHessianLinearOperator(P.model, P.loss_func, layer, P.data, check_deterministic=check)
        if how == "product":
            return op @ M
        if how == "export":
            return torch.from_numpy(op.to_scipy() @ M.numpy())
        if how == "adjoint":
            return op.adjoint() @ M
        return op @ [M.reshape(3, -1, 2)]

    n = ActivationHessianLinearOperator(P.model, P.loss_func, layer, P.data, check_deterministic=False).shape[1]
    M = zoo.rand(n, 2, seed=4, dtype=dt)
    want = run()
    with ambient(name):
        got = run()
    same(ctx, got, want, f"activation Hessian, {how}, under default {name}")


def references(ctx):
    from curvlinops.examples import functorch as f

    name = ctx.choose("ambient", list(AMBIENT), free=True)
    what = ctx.choose("function", ["functorch_hessian", "functorch_ggn", "functorch_gradient_and_loss",
                                   "functorch_empirical_fisher", "functorch_jacobian"], free=True)
    loss = ctx.choose("loss", LOSSES, free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    arch = ctx.choose("arch", ["mlp", "conv", "seq"], free=True)
    dt = ctx.choose("dtype", [F64, torch.float32], free=True)
    if what == "functorch_empirical_fisher" and arch == "seq":
        ctx.skip()
    P = Problem(arch, loss, red, N=3, C=2, sizes=[2, 1], dtype=dt)
    args = (P.model, P.params, P.data) if what.endswith("jacobian") else (P.model, P.loss_func, P.params, P.data)
    want = getattr(f, what)(*args)
    with ambient(name):
        got = getattr(f, what)(*args)
    same(ctx, got, want, f"{what} under default {name}")


ASSUMPTIONS = ["the model, loss and data themselves work under the default device and data type",
               "the 'meta' device stands for any default device other than that of the model: tensors created on it carry "
               "no values and mixing them with others fails"]


def scenarios(tier):
    k = 1 if tier == "quick" else 2
    return [
        ("values", values, k, "operator x default device/type; deviations over phase, model, loss, data types, use"),
        ("kfac", kfacs, k, "KFAC x Fisher x approximation x default device/type; deviations over layers, loss, damping, use"),
        ("activations", activations, None, "activation Hessians: full product"),
        ("references", references, None, "reference functions: full product"),
    ]
