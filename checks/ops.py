"""Every curvature operator of the package behind one interface."""

from checks.c06 import build
from checks.c08 import DAMPINGS, inverse_dense
from checks.common import *
from mc import refs, zoo

SYMMETRIC = ["H", "H-blocks", "GGN", "EF", "MC", "KFAC", "KFAC-emp", "KFAC-fwd", "KFAC-mc", "KFAC-joint",
             "KINV", "KINV-exact", "ACT"]
PSD = ["GGN", "EF", "MC", "KFAC", "KFAC-emp", "KFAC-fwd", "KFAC-mc", "KFAC-joint", "KINV", "KINV-exact"]
ALL = SYMMETRIC + ["J", "JT", "J-adj", "JT-adj"]
NO_LOSS = ["J", "JT", "J-adj", "JT-adj"]
KFACS = ["KFAC", "KFAC-emp", "KFAC-fwd", "KFAC-mc", "KFAC-joint"]
INVS = ["KINV", "KINV-exact"]


def block_mask(P, blocks):
    H = torch.zeros(P.D, P.D, dtype=P.dtype)
    off, ps = 0, list(P.params)
    for b in blocks:
        n = sum(p.numel() for p in ps[:b])
        ps = ps[b:]
        H[off : off + n, off : off + n] = 1
        off += n
    return H


def make_op(kind, P, data=None, **kw):
    """The operator ``kind`` of problem ``P`` (optionally over another data container)."""
    import curvlinops as c
    from curvlinops.experimental import ActivationHessianLinearOperator

    data = P.data if data is None else data
    kw.setdefault("check_deterministic", False)
    a = (P.model, P.loss_func, P.params, data)
    if kind == "H":
        return c.HessianLinearOperator(*a, **kw)
    if kind == "H-blocks":
        return c.HessianLinearOperator(*a, block_sizes=[1] * len(P.params), **kw)
    if kind == "GGN":
        return c.GGNLinearOperator(*a, **kw)
    if kind == "EF":
        return c.EFLinearOperator(*a, **kw)
    if kind == "MC":
        return c.FisherMCLinearOperator(*a, mc_samples=2, **kw)
    if kind in KFACS:
        ft = {"KFAC": "type-2", "KFAC-joint": "type-2", "KFAC-emp": "empirical", "KFAC-fwd": "forward-only",
              "KFAC-mc": "mc"}[kind]
        return c.KFACLinearOperator(*a, fisher_type=ft, separate_weight_and_bias=kind != "KFAC-joint", **kw)
    if kind in INVS:
        A = c.KFACLinearOperator(*a, fisher_type="type-2", **kw)
        return c.KFACInverseLinearOperator(A, **DAMPINGS["tuple" if kind == "KINV" else "exact"])
    if kind == "ACT":
        kw = {k: v for k, v in kw.items() if k in ("check_deterministic", "progressbar")}
        return ActivationHessianLinearOperator(P.model, P.loss_func, ("0", "output", 0), data, **kw)
    b = (P.model, P.params, data)
    if kind == "J":
        return c.JacobianLinearOperator(*b, **kw)
    if kind == "JT":
        return c.TransposedJacobianLinearOperator(*b, **kw)
    if kind == "J-adj":
        return c.JacobianLinearOperator(*b, **kw).adjoint()
    return c.TransposedJacobianLinearOperator(*b, **kw).adjoint()


def activation_hessian(P):
    z = P.model[0](P.X).detach().requires_grad_(True)
    h = z.clone()
    for m in list(P.model)[1:]:
        h = m(h)
    (g,) = torch.autograd.grad(P.loss_func(h, P.y), z, create_graph=True)
    return refs._rows(g.reshape(-1), [z])


def reference(kind, P):
    """Dense matrix, or None for the Monte-Carlo kinds."""
    if kind == "H":
        return refs.hessian(P)
    if kind == "H-blocks":
        return refs.hessian(P) * block_mask(P, [1] * len(P.params))
    if kind == "GGN":
        return refs.ggn(P)
    if kind == "EF":
        return refs.empirical_fisher(P)
    if kind in ("MC", "KFAC-mc"):
        return None
    if kind in KFACS:
        ft = {"KFAC": "type-2", "KFAC-joint": "type-2", "KFAC-emp": "empirical", "KFAC-fwd": "forward-only"}[kind]
        return refs.kfac_dense(P, refs.kfac_factors(P, ft, "expand", kind != "KFAC-joint"))
    if kind in INVS:
        return inverse_dense(P, refs.kfac_factors(P, "type-2", "expand", True),
                             **DAMPINGS["tuple" if kind == "KINV" else "exact"])
    if kind == "ACT":
        return activation_hessian(P)
    J = refs.jacobian(P)
    return J if kind in ("J", "JT-adj") else J.T


def spaces(kind, P):
    s = shapes_of(P.params)
    if kind == "ACT":
        with torch.no_grad():
            z = [tuple(P.model[0](P.X).shape)]
        return z, z
    if kind in NO_LOSS:
        with torch.no_grad():
            o = [tuple(P.model(P.X).shape)]
        return (s, o) if kind in ("J", "JT-adj") else (o, s)
    return s, s


def dims(shapes):
    return sum(int(torch.Size(s).numel()) for s in shapes)


def fresh(P):
    """Forget memoised references (the parameter values changed)."""
    refs._memo.clear()
