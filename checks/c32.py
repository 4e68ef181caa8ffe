"""C32: KFAC's building blocks: patches of convolutions and square roots of loss Hessians."""

import torch.nn.functional as Fn

from checks.common import *
from mc import zoo

MEMORY = ["contiguous", "channels last", "sliced", "expanded", "gradient", "float32"]


def patches(x, k, s, p, d, g):
    """Patches by definition: ``[b, o1, o2, c_in, k1, k2]`` (None: no output location)."""
    k, s, d = [(v, v) if isinstance(v, int) else tuple(v) for v in (k, s, d)]
    if p == "valid":
        pads = [(0, 0), (0, 0)]
    elif p == "same":
        total = [d[i] * (k[i] - 1) for i in range(2)]
        pads = [(t // 2, t - t // 2) for t in total]
    else:
        p = (p, p) if isinstance(p, int) else tuple(p)
        pads = [(p[0], p[0]), (p[1], p[1])]
    b, c, n1, n2 = x.shape
    full = x.new_zeros(b, c, n1 + sum(pads[0]), n2 + sum(pads[1]))
    full[:, :, pads[0][0]:pads[0][0] + n1, pads[1][0]:pads[1][0] + n2] = x
    full = sum(full[:, i * (c // g):(i + 1) * (c // g)] for i in range(g)) / g
    out = [(full.shape[2 + i] - d[i] * (k[i] - 1) - 1) // s[i] + 1 for i in range(2)]
    if min(out) < 1:
        return None, pads
    res = x.new_zeros(b, *out, c // g, *k)
    for o1 in range(out[0]):
        for o2 in range(out[1]):
            for a in range(k[0]):
                for e in range(k[1]):
                    res[:, o1, o2, :, a, e] = full[:, :, o1 * s[0] + a * d[0], o2 * s[1] + e * d[1]]
    return res, pads


def convolution(kernels, strides, paddings, dilations, sizes):
    def scenario(ctx):
        from curvlinops.kfac_utils import extract_averaged_patches, extract_patches

        k = ctx.choose("kernel", kernels, free=True)
        s = ctx.choose("stride", strides, free=True)
        p = ctx.choose("padding", paddings, free=True)
        d = ctx.choose("dilation", dilations, free=True)
        size = ctx.choose("input", sizes, free=True)
        g = ctx.choose("groups", [1, 2, 3], free=True)
        per = ctx.choose("channels per group", [1, 2])
        b = ctx.choose("batch", [2, 1, 5])
        memory = ctx.choose("memory", MEMORY)
        if p == "same" and s not in (1, (1, 1)):
            ctx.skip()  # (not allowed by PyTorch)
        dt = torch.float32 if memory == "float32" else F64
        x = zoo.rand(b, g * per, *size, seed=3, dtype=dt)
        if memory == "channels last":
            x = x.to(memory_format=torch.channels_last)
        elif memory == "sliced":
            x = zoo.rand(b, g * per, size[0] * 2, size[1] + 1, seed=4, dtype=dt)[:, :, ::2, 1:]
        elif memory == "expanded":
            x = x[:1].expand(b, -1, -1, -1)
        elif memory == "gradient":
            x = x.requires_grad_(True)
        keep = x.detach().clone()
        want, pads = patches(keep, k, s, p, d, g)
        if want is None:
            ctx.skip()
        tol = dict(rtol=1e-5, atol=1e-6) if dt == torch.float32 else dict(rtol=1e-12, atol=1e-12)
        # compare with PyTorch's own convolution of the group average, too
        if p != "same" or pads[0][0] == pads[0][1]:
            w = zoo.rand(2, per, *want.shape[4:], seed=8, dtype=dt)
            mean = sum(keep[:, i * per:(i + 1) * per] for i in range(g)) / g
            conv = Fn.conv2d(mean, w, stride=s, padding=p, dilation=d)
            zoo.expect(ctx, torch.einsum("bxyckl,ockl->boxy", want, w), conv, "reference", **(tol if dt == F64 else dict(
                rtol=1e-4, atol=1e-5)))
        args = (x, k, s, p, d, g)
        if any(a != e for a, e in pads):
            try:
                extract_patches(*args)
                ctx.fail("unequal padding accepted")
            except NotImplementedError:
                pass
        else:
            got = extract_patches(*args)
            ctx.check(got.dtype == dt, f"data type {got.dtype}")
            zoo.expect(ctx, got.detach(), want.flatten(3).flatten(1, 2), "patches", **tol)
        got = extract_averaged_patches(*args)
        ctx.check(got.dtype == dt, f"data type {got.dtype}")
        zoo.expect(ctx, got.detach(), want.flatten(3).mean((1, 2)), "averaged patches", **tol)
        ctx.check(torch.equal(x.detach(), keep), "the input was modified")
        # results belong to the caller
        with torch.no_grad():
            got.mul_(0.0)
            ctx.check(torch.equal(x.detach(), keep), "the result shares memory with the input")
            again = extract_averaged_patches(*args)
            zoo.expect(ctx, again.detach(), want.flatten(3).mean((1, 2)), "averaged patches, second call", **tol)

    return scenario


def make_loss(name, red, option):
    kw = {}
    if option == "label smoothing":
        kw = {"label_smoothing": 0.2}
    return {"mse": nn.MSELoss, "ce": nn.CrossEntropyLoss, "bce": nn.BCEWithLogitsLoss}[name](reduction=red, **kw)


def roots(ctx):
    """``S S^T`` is the loss's Hessian, for all outputs and targets on a grid."""
    from curvlinops.kfac_utils import loss_hessian_matrix_sqrt

    name = ctx.choose("loss", LOSSES, free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    C = ctx.choose("C", [2, 1, 3], free=True)
    values = ctx.choose("values", [[-2.0, 0.3, 1.0], [-40.0, 0.0, 40.0], [0.0, 1e-6, -800.0]], free=True)
    dt = ctx.choose("dtype", [F64, torch.float32], free=True)
    option = ctx.choose("option", ["none", "label smoothing"])
    layout = ctx.choose("layout", ["plain", "split", "column", "gradient"])
    if option != "none" and name != "ce":
        ctx.skip()
    loss = make_loss(name, red, option)
    targets = range(C) if name == "ce" else [0, 1]
    from itertools import product

    for f in product(values, repeat=C):
        for t in product(targets, repeat=1 if name == "ce" else C):
            ctx.count(states=1, transitions=1, traces=1)
            out = torch.tensor([f], dtype=dt)
            y = torch.tensor(t) if name == "ce" else torch.tensor([t], dtype=dt) * (1 if name == "bce" else 0.7)
            H = torch.autograd.functional.hessian(lambda z: loss(z, y.to(F64) if name != "ce" else y), out.to(F64))
            H = H.reshape(C, C)
            if layout == "split":
                out = torch.cat([out, out + 1]).split(1)[0]
            elif layout == "column":
                out = torch.stack([out, out], dim=-1)[..., 0]
            elif layout == "gradient":
                out = out.requires_grad_(True)
            keep, ykeep = out.detach().clone(), y.clone()
            S = loss_hessian_matrix_sqrt(out.detach() if layout != "gradient" else out, y, loss).detach()
            ctx.check(tuple(S.shape) == (C, C) and S.dtype == dt, f"shape {tuple(S.shape)}, type {S.dtype}")
            tol = dict(rtol=1e-7, atol=1e-12) if dt == F64 else dict(rtol=1e-4, atol=1e-6)
            zoo.expect(ctx, (S.to(F64) @ S.to(F64).T), H, f"S S^T at {f}, target {t}", **tol)
            S.zero_()  # (belongs to the caller)
            ctx.check(torch.equal(out.detach(), keep) and torch.equal(y, ykeep), "arguments were modified")
            S = loss_hessian_matrix_sqrt(out.detach() if layout != "gradient" else out, y, loss).detach()
            zoo.expect(ctx, (S.to(F64) @ S.to(F64).T), H, f"S S^T at {f}, target {t}, second call", **tol)


def invalid(ctx):
    from curvlinops.kfac_utils import loss_hessian_matrix_sqrt

    name = ctx.choose("loss", LOSSES, free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    how = ctx.choose("input", ["two outputs", "no batch", "three axes", "two targets", "loss", "soft label", "negative label", "empty"],
                     free=True)
    loss = make_loss(name, red, "none")
    out = zoo.rand(1, 3, seed=1)
    y = torch.tensor([1]) if name == "ce" else torch.tensor([[0.0, 1.0, 1.0]], dtype=F64)
    error = ValueError
    if how == "two outputs":
        out = zoo.rand(2, 3, seed=1)
    elif how == "no batch":
        out = out[0]
    elif how == "three axes":
        out = out.unsqueeze(-1)
    elif how == "empty":
        out = zoo.rand(0, 3, seed=1)
    elif how == "two targets":
        y = torch.cat([y, y])
    elif how == "loss":
        loss, error = {"mse": nn.L1Loss, "ce": nn.NLLLoss, "bce": nn.BCELoss}[name](reduction=red), NotImplementedError
    else:
        if name != "bce":
            ctx.skip()
        y[0, 2], error = (0.5 if how == "soft label" else -1.0), NotImplementedError
    try:
        loss_hessian_matrix_sqrt(out, y, loss)
        ctx.fail(f"{how} accepted")
    except error:
        pass


ASSUMPTIONS = ["inputs of up to 7 x 6 pixels, kernels up to 3 x 3", "targets of BCEWithLogitsLoss are 0 or 1; no positive weights"]


def scenarios(tier):
    q = tier == "quick"
    conv = convolution([1, 2, 3, (1, 3), (3, 2)], [1, 2, (2, 1), (1, 3)], [0, 1, (1, 0), (0, 2), "valid", "same"],
                       [1, 2, (2, 1)] if q else [1, 2, 3, (2, 1), (1, 3)],
                       [(4, 4), (5, 3), (1, 4)] if q else [(4, 4), (5, 3), (1, 4), (7, 6), (3, 1), (2, 7)])
    return [
        ("patches", conv, 1 if q else 2,
         "kernel x stride x padding x dilation x groups x input size; deviations over channels, batch size, memory layout"),
        ("square roots", roots, 1 if q else None, "loss x reduction x C x every output and target on a grid (saturated ones included) "
         "x data type; deviations over label smoothing and layout"),
        ("invalid", invalid, None, "malformed arguments x loss x reduction"),
    ]
