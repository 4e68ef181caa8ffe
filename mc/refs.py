"""Independent dense references, evaluated datum by datum from the definitions."""

import copy
import functools
import math

import torch
from torch import nn
from torch.autograd import grad
from torch.nn.functional import pad

_memo = {}


def precise(P):
    """The same problem (exactly the same numbers) in double precision."""
    if P.dtype == torch.float64:
        return P
    Q = copy.copy(P)
    Q.model, Q.loss_func = copy.deepcopy(P.model), copy.deepcopy(P.loss_func)
    if isinstance(Q.model, nn.Module):
        Q.model.double()
    if isinstance(Q.loss_func, nn.Module):
        Q.loss_func.double()
    Q.all_params = list(Q.model.parameters())
    for p in Q.all_params:
        p.data = p.data.double()
    Q.params = [Q.all_params[i] for i in P.select]
    up = lambda t: t.double() if t.is_floating_point() else t  # noqa: E731
    Q.X, Q.y, Q.dtype = up(P.X), up(P.y), torch.float64
    Q.data = [(up(X), up(y)) for X, y in P.data] if isinstance(P.data, list) else None
    Q.key = ("precise",) + P.key
    return Q


def trainable(f):
    """References are evaluated in double precision, and differentiate w.r.t. all parameters,
    whichever the user has frozen."""

    @functools.wraps(f)
    def wrapped(P, *a, **k):
        P = precise(P)
        flags = [p.requires_grad for p in P.all_params]
        try:
            for p in P.all_params:
                p.requires_grad_(True)
            return f(P, *a, **k)
        finally:
            for p, flag in zip(P.all_params, flags):
                p.requires_grad_(flag)

    return wrapped


def memo(key, f):
    if key not in _memo:
        if len(_memo) > 600:
            _memo.clear()
        _memo[key] = f()
    return _memo[key]


def _rows(vec, wrt, weight=None):
    """Dense Jacobian of the 1d tensor ``vec`` w.r.t. the list ``wrt``."""
    out = []
    for v in vec:
        if not v.requires_grad:
            out.append(torch.cat([torch.zeros_like(p).reshape(-1) for p in wrt]))
            continue
        gs = grad(v, wrt, retain_graph=True, allow_unused=True, materialize_grads=True)
        out.append(torch.cat([g.reshape(-1) for g in gs]))
    return torch.stack(out).detach()


def full_loss(P):
    return P.loss_func(P.model(P.X), P.y)


@trainable
def hessian(P):
    def f():
        g = grad(full_loss(P), P.all_params, create_graph=True, allow_unused=True,
                 materialize_grads=True)
        return _rows(torch.cat([x.reshape(-1) for x in g]), P.all_params)

    H = memo(("H", P.key), f)
    return H[P.index][:, P.index]


@trainable
def gradient(P):
    def f():
        L = full_loss(P)
        return torch.cat([g.reshape(-1) for g in grad(L, P.all_params, materialize_grads=True)]).detach(), L.detach()

    g, L = memo(("g", P.key), f)
    return g[P.index], L


@trainable
def jacobian(P):
    def f():
        return torch.cat([_rows(P.model(P.X[n : n + 1]).reshape(-1), P.all_params)
                          for n in range(P.N)])

    return memo(("J", P.key), f)[:, P.index]


@trainable
def out_hessian(P):
    def f():
        out = P.model(P.X).detach().requires_grad_(True)
        (g,) = grad(P.loss_func(out, P.y), out, create_graph=True)
        n = out.numel()
        if n <= 200:
            return _rows(g.reshape(-1), [out])
        (H,) = grad(g.reshape(-1), out, grad_outputs=torch.eye(n, dtype=out.dtype), is_grads_batched=True)
        return H.reshape(n, n).detach()

    return memo(("Hout", P.key), f)


@trainable
def ggn(P):
    def f():
        J = jacobian(P)
        return J.T @ out_hessian(P) @ J

    return memo(("ggn", P.key, tuple(P.index)), f)


def num_terms(P):
    """Number of loss terms per datum (positions of a higher-dimensional output)."""
    if P.lossname == "ce":
        return int(P.y[0:1].numel())
    return int(P.y[0:1].shape[:-1].numel())


def flatten_terms(P, out, y):
    """[B, ...] predictions/labels -> [B * T, C] and labels, one row per loss term."""
    if P.lossname == "ce":
        out = out.movedim(1, -1).reshape(-1, out.shape[1])
        y = y.reshape(-1)
    else:
        out = out.reshape(-1, out.shape[-1])
        y = y.reshape(-1, y.shape[-1])
    return out, y


def scale(P):
    """The factor c: 1 for sum, 1 / (number of averaged entries) for mean."""
    if P.reduction == "sum":
        return 1.0
    return 1.0 / (P.N * num_terms(P) * (1 if P.lossname == "ce" else P.C))


def plain_loss(P):
    """The standard loss without any options (closed forms apply)."""
    L = P.loss_func
    return (type(L) in (nn.MSELoss, nn.CrossEntropyLoss, nn.BCEWithLogitsLoss)
            and getattr(L, "weight", None) is None and getattr(L, "ignore_index", -100) < 0
            and getattr(L, "pos_weight", None) is None and not getattr(L, "label_smoothing", 0))


def output_grads(P, f, y):
    """Gradient of the *unreduced* (summed over C) loss w.r.t. the rows of f."""
    if not plain_loss(P):
        L = copy.deepcopy(P.loss_func)
        L.reduction = "sum"
        f = f.detach().requires_grad_(True)
        return torch.cat([grad(L(r[None], t[None]), r)[0][None] for r, t in zip(f.unbind(0), y)])
    if P.lossname == "mse":
        return 2 * (f - y)
    if P.lossname == "bce":
        return torch.sigmoid(f) - y
    return torch.softmax(f, 1) - nn.functional.one_hot(y, f.shape[1]).to(f.dtype)


@trainable
def term_jacobians(P):
    """J[n, t] with shape [N, T, C, D] (D: all parameters)."""
    def f():
        res = []
        for n in range(P.N):
            o, _ = flatten_terms(P, P.model(P.X[n : n + 1]), P.y[n : n + 1])
            res.append(torch.stack([_rows(row, P.all_params) for row in o]))
        return torch.stack(res)

    return memo(("tJ", P.key), f)[..., P.index]


@trainable
def term_outputs(P):
    with torch.no_grad():
        o, y = flatten_terms(P, P.model(P.X), P.y)
    return o, y


def outer_sum(P, G):
    """scale * sum_{n,t} J^T g g^T J for output-space gradients G [N*T, C]."""
    J = term_jacobians(P)
    N, T, C, D = J.shape
    g = torch.einsum("ntcd,ntc->ntd", J, G.reshape(N, T, C)).reshape(N * T, D)
    return scale(P) * g.T @ g


@trainable
def empirical_fisher(P):
    o, y = term_outputs(P)
    return outer_sum(P, output_grads(P, o, y))


@trainable
def fisher(P):
    """Exact (type-1) Fisher: covariance of the would-be gradients."""
    J = term_jacobians(P)
    N, T, C, D = J.shape
    o, _ = term_outputs(P)
    F = torch.zeros(D, D, dtype=J.dtype)
    for i, row in enumerate(o):
        if P.lossname == "mse":
            cov = 2 * torch.eye(C, dtype=J.dtype)
        elif P.lossname == "bce":
            p = torch.sigmoid(row)
            cov = torch.diag(p * (1 - p))
        else:
            p = torch.softmax(row, 0)
            cov = torch.diag(p) - torch.outer(p, p)
        Jt = J.reshape(N * T, C, D)[i]
        F += Jt.T @ cov @ Jt
    return scale(P) * F


# ------------------------------------------------------------------------- KFAC


def _patches(mod, x):
    """[1, C_in, I1, I2] -> [positions, C_in/groups * K1 * K2], averaged over groups."""
    k1, k2 = mod.kernel_size
    s1, s2 = mod.stride
    d1, d2 = mod.dilation
    if mod.padding == "valid":
        pads = (0, 0, 0, 0)
    elif mod.padding == "same":
        t1, t2 = d1 * (k1 - 1), d2 * (k2 - 1)
        pads = (t2 // 2, t2 - t2 // 2, t1 // 2, t1 - t1 // 2)
    else:
        p1, p2 = mod.padding
        pads = (p2, p2, p1, p1)
    mode = mod.padding_mode
    xp = pad(x, pads) if mode == "zeros" else pad(x, pads, mode=mode)
    G = mod.groups
    B, Cin, I1, I2 = xp.shape
    xg = sum(xp[:, g * (Cin // G) : (g + 1) * (Cin // G)] for g in range(G)) / G
    O1 = (I1 - d1 * (k1 - 1) - 1) // s1 + 1
    O2 = (I2 - d2 * (k2 - 1) - 1) // s2 + 1
    rows = []
    for o1 in range(O1):
        for o2 in range(O2):
            block = xg[0, :, o1 * s1 : o1 * s1 + d1 * (k1 - 1) + 1 : d1,
                       o2 * s2 : o2 * s2 + d2 * (k2 - 1) + 1 : d2]
            rows.append(block.reshape(-1))
    return torch.stack(rows)


def kfac_layers(P):
    """Names of the supported layers and the positions of their chosen parameters."""
    layers = []
    for name, mod in P.model.named_modules():
        if not isinstance(mod, (nn.Linear, nn.Conv2d)):
            continue
        pos = {}
        for pn, p in mod.named_parameters():
            for i, q in enumerate(P.params):
                if q is p:
                    pos[pn] = i
        if pos:
            layers.append((name, mod, pos))
    return layers


@trainable
def kfac_trace_data(P):
    """Per layer and datum: inputs [S, d_in] and dense map d z / d f.

    Returns {layer: (a, Jz)} with a: list over (used) data of [S, d_in] and Jz: for each (used) datum
    [T * C, S, d_out] (row: gradient of one output entry w.r.t. the layer's output).
    """
    def f():
        model = copy.deepcopy(P.model)
        store = {}

        def mk(name, mod):
            def hook(m, inp, out):
                store[name] = (inp[0].detach().clone(), out)
                return out.clone()  # robust against in-place successors

            return mod.register_forward_hook(hook)

        hs = [mk(n, m) for n, m in model.named_modules() if isinstance(m, (nn.Linear, nn.Conv2d))]
        res = {}
        for n in range(P.N):
            store.clear()
            o, _ = flatten_terms(P, model(P.X[n : n + 1]), P.y[n : n + 1])
            names = list(store)
            zs = [store[k][1] for k in names]
            grads = [grad(v, zs, retain_graph=True, allow_unused=True, materialize_grads=True)
                     for v in o.reshape(-1)]
            for i, k in enumerate(names):
                mod = model.get_submodule(k)
                x = store[k][0]
                if isinstance(mod, nn.Conv2d):
                    a = _patches(mod, x)
                    g = torch.stack([gr[i][0].movedim(0, -1).reshape(-1, mod.out_channels)
                                     for gr in grads])
                else:
                    a = x.reshape(-1, x.shape[-1])
                    g = torch.stack([gr[i].reshape(-1, mod.out_features) for gr in grads])
                res.setdefault(k, ([], {}))
                res[k][0].append(a.detach())
                res[k][1][n] = g.detach()
        for h in hs:
            h.remove()
        return res

    return memo(("kfac", P.key, getattr(P, "kfac_key", None)), f)


def kfac_output_vectors(P, fisher_type, samples=None):
    """List of [N, T, C] output-space vectors that are backpropagated (unreduced)."""
    o, y = term_outputs(P)
    N, T, C = P.N, num_terms(P), o.shape[1]
    if fisher_type == "empirical":
        return [output_grads(P, o, y).reshape(N, T, C)]
    if fisher_type == "mc":
        return [G.reshape(N, T, C) for G in samples]
    if fisher_type == "type-2":
        cols = []
        for c in range(C):
            rows = []
            for row in o:
                if P.lossname == "mse":
                    S = math.sqrt(2) * torch.eye(C, dtype=o.dtype)
                elif P.lossname == "bce":
                    p = torch.sigmoid(row)
                    S = torch.diag((p * (1 - p)).sqrt())
                else:
                    p = torch.softmax(row, 0)
                    S = torch.diag(p.sqrt()) - torch.outer(p, p.sqrt())
                rows.append(S[:, c])
            cols.append(torch.stack(rows).reshape(N, T, C))
        return cols
    raise ValueError(fisher_type)


@trainable
def kfac_factors(P, fisher_type, approx, separate, samples=None):
    """{layer: (A or None, B, positions)} from the documented definition."""
    data = kfac_trace_data(P)
    c = scale(P)
    out = {}
    M = len(samples) if fisher_type == "mc" else 1
    vecs = None if fisher_type == "forward-only" else kfac_output_vectors(P, fisher_type, samples)
    for name, mod, pos in kfac_layers(P):
        a_list, J_list = data.get(name, ([], {}))  # (it may not be used)
        joint = not separate and "weight" in pos and "bias" in pos
        A = None
        if "weight" in pos:
            A = torch.zeros((mod.weight[0].numel() + joint,) * 2, dtype=P.dtype)
            for a in a_list:
                if approx == "reduce":
                    a = a.mean(0, keepdim=True)
                if joint:
                    a = torch.cat([a, torch.ones(a.shape[0], 1, dtype=a.dtype)], 1)
                term = a.T @ a / (P.N * a.shape[0])
                A = A + term
        d_out, dt = mod.weight.shape[0], P.dtype
        if fisher_type == "forward-only":
            B = torch.eye(d_out, dtype=dt)
        else:
            B = torch.zeros(d_out, d_out, dtype=dt)
            for V in vecs:
                for n in range(P.N):
                    if n not in J_list:
                        continue
                    g = torch.einsum("k,ksd->sd", V[n].reshape(-1), J_list[n])
                    if approx == "reduce":
                        g = g.sum(0, keepdim=True)
                    B += g.T @ g
            B = B * c / M
        out[name] = (A, B, pos, joint)
    return out


def assemble(P, blocks):
    """Dense matrix over the flattened parameter list from per-layer blocks.

    ``blocks``: list of (rows, matrix) with ``rows`` the flat coordinates of a block.
    """
    D = sum(p.numel() for p in P.params)
    K = torch.zeros(D, D, dtype=blocks[0][1].dtype if blocks else torch.float64)
    for idx, mat in blocks:
        ii = torch.tensor(idx)
        K[ii[:, None], ii[None, :]] = mat
    return K


def offsets(P):
    off, res = 0, []
    for p in P.params:
        res.append(off)
        off += p.numel()
    return res


def layer_blocks(P, factors):
    """Yield (coords, A or None, B): block = kron(B, A) on coords (row-major out, in)."""
    off = offsets(P)
    for name, (A, B, pos, joint) in factors.items():
        d_out = B.shape[0]
        if joint:
            d_in = A.shape[0] - 1
            w0, b0 = off[pos["weight"]], off[pos["bias"]]
            coords = []
            for o in range(d_out):
                coords += [w0 + o * d_in + i for i in range(d_in)] + [b0 + o]
            yield coords, A, B
        else:
            if "weight" in pos:
                w0 = off[pos["weight"]]
                yield list(range(w0, w0 + d_out * A.shape[0])), A, B
            if "bias" in pos:
                b0 = off[pos["bias"]]
                yield list(range(b0, b0 + d_out)), None, B


@trainable
def kfac_dense(P, factors):
    return assemble(P, [(c, B if A is None else torch.kron(B, A)) for c, A, B in layer_blocks(P, factors)])
