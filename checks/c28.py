"""C28: the functional reference implementations and the comparison helper."""

import contextlib
import io
from collections import UserDict
from itertools import product

import numpy as np

from checks.common import *
from mc import refs, zoo
from mc.engine import Violation

FUNCS = ["hessian", "ggn", "empirical_fisher", "jacobian", "gradient_and_loss"]

# the listed findings: what these raise if a 0-dimensional parameter is listed
SCALAR = {"empirical_fisher": (IndexError,), "jacobian": (IndexError, RuntimeError)}


def evaluate(name, P, model, data, **kw):
    from curvlinops.examples import functorch as f

    if name == "jacobian":
        call = lambda: f.functorch_jacobian(model, P.params, data, **kw)  # noqa: E731
    else:
        call = lambda: getattr(f, "functorch_" + name)(model, P.loss_func, P.params, data, **kw)  # noqa: E731
    if name not in SCALAR or all(p.ndim for p in P.params):
        return call()
    try:
        return call()
    except SCALAR[name] as e:
        raise Violation(f"functorch_{name} with a scalar parameter raises {type(e).__name__}: {e}",
                        f"functorch_{name}: {type(e).__name__} with a 0-dimensional parameter") from e


def judge(ctx, name, got, P):
    if name == "gradient_and_loss":
        g, L = got
        want, wantL = refs.gradient(P)
        ctx.check(len(g) == len(P.params) and all(a.shape == p.shape for a, p in zip(g, P.params)), "gradient format")
        zoo.expect(ctx, zoo.flat(g).detach(), want, "gradient")
        zoo.expect(ctx, L.detach(), wantL, "loss")
        return
    ref = {"hessian": refs.hessian, "ggn": refs.ggn, "empirical_fisher": refs.empirical_fisher,
           "jacobian": refs.jacobian}[name](P)
    ctx.check(tuple(got.shape) == tuple(ref.shape), f"{name}: shape {tuple(got.shape)}, expected {tuple(ref.shape)}")
    zoo.expect(ctx, got.detach(), ref, name)


def losses(name):
    return {"hessian": LOSSES + ["pow4", "cels", "bcepw", "bcesoft"], "ggn": LOSSES + ["pow4", "cels", "bcepw"],
            "empirical_fisher": LOSSES + ["bcesoft"], "jacobian": ["mse"]}.get(name, LOSSES + ["pow4", "cels", "bcepw"])


def configurations(ctx):
    name = ctx.choose("function", FUNCS, free=True)
    arch = ctx.choose("arch", [a for a in ARCHS if a not in ("func", "norm", "gated", "embed", "bn")])
    loss = ctx.choose("loss", losses(name))
    red = ctx.choose("reduction", REDUCTIONS)
    sizes = choose_sizes(ctx)
    C = ctx.choose("C", [2, 1, 3, 5])
    sel = ctx.pick("params", zoo.param_selections(zoo.num_params(arch)))
    P = extra_loss(arch, loss, red, N=sum(sizes), C=C, sizes=sizes, params=sel)
    data, model, kw = P.data, P.model, {}
    how = ctx.choose("inputs", ["tensor", "loader", "dict", "UserDict", "generator"])
    if how in ("dict", "UserDict"):
        model = zoo.DictWrap(P.model)
        box = dict if how == "dict" else UserDict
        data = [(box(x=X), y) for X, y in data]
        kw["input_key"] = "x"
    elif how == "generator":
        data = ((X, y) for X, y in list(data))
    elif how == "loader":
        data = torch.utils.data.DataLoader(torch.utils.data.TensorDataset(P.X, P.y), batch_size=2)
    before = [p.detach().clone() for p in P.all_params]
    judge(ctx, name, evaluate(name, P, model, data, **kw), P)
    ctx.check(all(torch.equal(a, p.detach()) and p.grad is None for a, p in zip(before, P.all_params)), "the model changed")


def core(ctx):
    name = ctx.choose("function", FUNCS, free=True)
    loss = ctx.choose("loss", LOSSES, free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    arch = ctx.choose("arch", ["mlp", "seq", "convout", "odd"], free=True)
    sizes = ctx.choose("batches", [[2, 1, 1], [4], [1, 3], [1, 1, 1, 1]], free=True)
    C = ctx.choose("C", [2, 1, 3], free=True)
    P = Problem(arch, loss, red, N=4, C=C, sizes=sizes)
    judge(ctx, name, evaluate(name, P, P.model, P.data), P)


def missing_key(ctx):
    name = ctx.choose("function", FUNCS, free=True)
    box = ctx.choose("mapping", [dict, UserDict], free=True)
    P = Problem("mlp", "mse", "mean", N=2, C=2, sizes=[1, 1])
    data = [(box(x=X), y) for X, y in P.data]
    try:
        evaluate(name, P, zoo.DictWrap(P.model), data)
    except ValueError:
        return
    ctx.fail("mapping inputs without key were accepted")


VALUES = [0.0, 1.0, -1.0, 1.2, 1.0 + 1e-6, 1.0 + 1e-3, 1e-9, float("nan"), float("inf"), float("-inf")]


def helper(ctx):
    """All pairs of two-element arrays over special values."""
    from curvlinops.examples.utils import report_nonclose

    a = np.array([ctx.choose(f"a{i}", VALUES, free=True) for i in range(2)])
    kw = ctx.choose("options", [{}, {"equal_nan": True}, {"rtol": 1e-2}, {"atol": 1e-2, "rtol": 0.0}, {"rtol": 0.0, "atol": 0.0}, {"rtol": 0.18, "atol": 0.0}],
                    free=True)
    for b in product(VALUES, repeat=2):
        b = np.array(b)
        rt, at, en = kw.get("rtol", 1e-5), kw.get("atol", 1e-8), kw.get("equal_nan", False)

        def same(x, y):
            if np.isnan(x) or np.isnan(y):
                return en and np.isnan(x) and np.isnan(y)
            if np.isinf(x) or np.isinf(y):
                return x == y
            return abs(x - y) <= at + rt * abs(y)

        want = all(same(x, y) for x, y in zip(a, b))
        for shape in ((2,), (1, 2), (2, 1)):
            ctx.count(states=1, transitions=1, traces=1)
            try:
                with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
                    report_nonclose(a.reshape(shape), b.reshape(shape), **kw)
                ok = True
            except ValueError:
                ok = False
            ctx.check(ok == want, f"{a} vs {b} ({kw}): {'accepted' if ok else 'rejected'}")
    for other in ((2, 1), (1, 2), (3,), (1,), (2, 2), ()):
        try:
            with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
                report_nonclose(np.ones(2), np.ones(other), **kw)
            ctx.fail(f"accepted shapes (2,) and {other}")
        except ValueError:
            pass


def tensors(ctx):
    """The safeguard's comparison: all pairs of two-element tensors over special values, shapes and types."""
    from curvlinops.utils import allclose_report

    dt = ctx.choose("dtype", [torch.float64, torch.float32, torch.bfloat16, torch.int64], free=True)
    values = [0, 1, -1, 2, 1000001] if dt == torch.int64 else VALUES
    a = [ctx.choose(f"a{i}", values, free=True) for i in range(2)]
    kw = ctx.choose("options", [{}, {"rtol": 1e-2}, {"atol": 1e-2, "rtol": 0.0}, {"rtol": 0.0, "atol": 0.0}, {"rtol": 0.18, "atol": 0.0}],
                    free=True)
    if dt != torch.float64 and len(kw) == 2:
        ctx.skip()
    rt, at = kw.get("rtol", 1e-5), kw.get("atol", 1e-8)
    quiet = contextlib.redirect_stdout(io.StringIO())
    A = torch.tensor(a, dtype=dt)
    for b in product(values, repeat=2):
        B = torch.tensor(b, dtype=dt)
        margin = [False]

        def same(x, y):
            if np.isnan(x) or np.isnan(y):
                return False
            if np.isinf(x) or np.isinf(y):
                return x == y
            bound = at + rt * abs(y)
            margin[0] |= 0 < abs(x - y) and abs(abs(x - y) - bound) <= 1e-2 * bound  # (rounding decides)
            return abs(x - y) <= bound

        want = all([same(x, y) for x, y in zip(A.tolist(), B.tolist())])
        if margin[0] and dt not in (torch.float64, torch.int64):
            continue
        for shape in ((2,), (1, 2)):
            ctx.count(states=1, transitions=1, traces=1)
            X, Y = A.reshape(shape), B.reshape(shape).clone()
            keep = X.clone(), Y.clone()
            with quiet:
                got = allclose_report(X, Y.requires_grad_(dt.is_floating_point and shape == (1, 2)), **kw)
            ctx.check(got is want, f"{a} vs {b} ({kw}): {got}")
            ctx.check(torch.equal(X.nan_to_num(7), keep[0].nan_to_num(7)) and torch.equal(Y.nan_to_num(7), keep[1].nan_to_num(7)),
                      "an argument was modified")
    for one, other in product([(), (1,), (2,), (1, 1), (1, 2), (2, 1), (2, 2), (0,), (0, 2)], repeat=2):
        with quiet:
            got = allclose_report(torch.ones(one, dtype=dt), torch.ones(other, dtype=dt), **kw)
        ctx.check(got is (one == other), f"shapes {one} and {other}: {got}")


SIZES = [1, 2, 3, 7, 8, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 500, 512, 999, 1000, 1001, 1023, 1024, 1025, 2047,
         2048, 2049, 4095, 4096, 4097, 5000, 8192, 10000, 16384, 16385, 32769, 65535, 65536, 65537, 100000, 131073]


def sizes(ctx):
    """One differing entry, at any place of a tensor of any size."""
    from curvlinops.utils import allclose_report

    n = ctx.choose("entries", SIZES, free=True)
    dt = ctx.choose("dtype", [torch.float64, torch.float32], free=True)
    layout = ctx.choose("layout", ["vector", "rows", "columns", "transposed"], free=True)
    shape = {"vector": (n,), "rows": (n, 1), "columns": (1, n), "transposed": (n, 1)}[layout]
    A = zoo.rand(n, seed=3).to(dt).reshape(shape)
    quiet = contextlib.redirect_stdout(io.StringIO())
    where = {0, 1, n // 3, n // 2, n - 2, n - 1, *(2**k for k in range(4, 20)), *(2**k - 1 for k in range(4, 20))}
    with quiet:
        ctx.check(allclose_report(A, A.clone()) is True, "equal tensors")
    for i in sorted(w for w in where if 0 <= w < n):
        for value in (1e-3, float("nan")):
            ctx.count(states=1, transitions=1, traces=1)
            B = A.clone()
            B.view(-1)[i] += value
            X, Y = (A.t(), B.t()) if layout == "transposed" else (A, B)
            with quiet:
                ctx.check(allclose_report(X, Y) is False, f"difference {value} at entry {i} of {n}")
                ctx.check(allclose_report(Y, X) is False, f"difference {value} at entry {i} of {n}, swapped")


def splitting(ctx):
    """All lists of up to five entries and all lists of sizes."""
    from curvlinops.utils import split_list

    n = ctx.choose("length", range(6), free=True)
    kind = ctx.choose("type", [list, tuple], free=True)
    length = ctx.choose("number of sizes", range(5), free=True)
    sizes = [ctx.choose(f"size {i}", range(4), free=True) for i in range(length)]
    entries = [object() for _ in range(n)]
    x = kind(entries)
    try:
        got = split_list(x, sizes)
    except ValueError:
        ctx.check(sum(sizes) != n, "a fitting list was rejected")
        return
    ctx.check(sum(sizes) == n, "sizes that do not fit were accepted")
    ctx.check(isinstance(got, list) and all(isinstance(g, list) for g in got), "lists expected")
    ctx.check([len(g) for g in got] == sizes, f"lengths {[len(g) for g in got]}")
    flat = [e for g in got for e in g]
    ctx.check(len(flat) == n and all(e is f for e, f in zip(flat, entries)), "entries differ")
    ctx.check(len(x) == n and all(e is f for e, f in zip(x, entries)), "the list was modified")
    for g in got:
        ctx.check(g is not x, "a sub-list is the list itself")


ASSUMPTIONS = ["float64; relative tolerance 1e-8", "the model is a module and the parameters are its own",
               "no LayerNorm (PyTorch's forward-over-reverse derivative of its weight is wrong in this version)",
               "empirical Fisher: the three standard losses without weights"]


def scenarios(tier):
    q = tier == "quick"
    return [
        ("configurations", configurations, 1 if q else 2,
         "function x deviations over architecture, loss, reduction, batches, C, parameters, containers"),
        ("core", core, None, "full product function x loss x reduction x architecture x batches x C"),
        ("missing key", missing_key, None, "mapping inputs without key"),
        ("tensors", tensors, None, "the safeguard's comparison of tensors: all pairs of tensors of two special values x type x tolerances x shapes"),
        ("sizes", sizes, None, "tensors of 1 to a million entries x layout x type x place of the differing entry"),
        ("splitting", splitting, None, "all lists of up to 5 entries x all lists of up to 4 sizes of up to 3"),
        ("helper", helper, None, "all pairs of arrays of two special values x tolerances x shapes"),
    ]
