"""C11: every operator is one fixed linear map, in each operand format."""

import numpy as np

from checks.common import *
from checks.ops import *
from mc import zoo


def invalid_operands(ins, dtype):
    """Malformed right-hand sides for an operator with input shapes ``ins``."""
    D = dims(ins)
    z = lambda *s: torch.ones(s, dtype=dtype)  # noqa: E731
    good = [z(*s) for s in ins]
    goodm = [z(*s, 2) for s in ins]
    out = {
        "vector too long": z(D + 1), "vector too short": z(D - 1) if D > 1 else z(D + 2),
        "matrix with wrong rows": z(D + 1, 2), "transposed matrix": z(2, D) if D != 2 else z(3, D),
        "three axes": z(D, 2, 2), "zero axes": z(), "list too short": good[:-1], "list too long": good + [good[-1]],
        "empty list": [], "tuple": tuple(good), "numpy": np.ones(D), "none": None, "number": 1.0,
        "list with number": good[:-1] + [1.0], "list of numpy": [g.numpy() for g in good],
        "list: wrong entry shape": good[:-1] + [z(*ins[-1], 2, 2)],
        "list: entry too long": goodm[:-1] + [z(*(list(ins[-1][:-1]) + [ins[-1][-1] + 1]), 2) if ins[-1] else z(3, 2)],
        "dict": {"x": z(D)}, "string": "x",
    }
    if len(ins) > 1:
        out["list: unequal columns"] = goodm[:-1] + [z(*ins[-1], 3)]
        out["list: vector and matrix mixed"] = [good[0]] + goodm[1:]
        out["list: vector and one column"] = [good[0]] + [g.unsqueeze(-1) for g in good[1:]]
        if any(tuple(s) != tuple(ins[0]) for s in ins):
            out["list: permuted"] = good[1:] + good[:1]
    return out


def expect_refused(ctx, op, X, what):
    try:
        op @ X
    except ValueError:
        return
    except Exception as e:
        ctx.fail(f"{what}: {type(e).__name__} instead of ValueError")
    ctx.fail(f"{what}: accepted")


SHAPES = [(2, 2), (3,), (), (1,), (2, 1, 2)]


def dense_op(ins, outs, A, self_adjoint=False):
    from curvlinops._torch_base import PyTorchLinearOperator

    class Dense(PyTorchLinearOperator):
        SELF_ADJOINT = self_adjoint

        def __init__(self):
            super().__init__(ins, outs)

        def _matmat(self, X):
            return zoo.to_list(A @ zoo.from_list(X), outs)

        def _adjoint(self):
            return dense_op(outs, ins, A.T)

        def _infer_device(self):
            return torch.device("cpu")

        def _infer_dtype(self):
            return A.dtype

    return Dense()


def user_defined(ctx):
    """The base interface with every small list of input and output shapes."""
    nin = ctx.choose("number of inputs", [1, 2, 3] if ctx.tier == "quick" else [1, 2, 3, 4], free=True)
    ins = [ctx.choose(f"in{i}", SHAPES, free=True) for i in range(nin)]
    nout = ctx.choose("number of outputs", [1, 2], free=True)
    outs = [ctx.choose(f"out{i}", SHAPES[:4] if nin < 3 else SHAPES[:3], free=True) for i in range(nout)]
    A = zoo.rand(dims(outs), dims(ins), seed=9)
    op = dense_op(ins, outs, A)
    ctx.check(tuple(op.shape) == tuple(A.shape), "shape")
    for fmt in zoo.FORMATS:
        zoo.check_product(ctx, op, A, ins, outs, fmt=fmt)
        zoo.check_product(ctx, op.adjoint(), A.T, outs, ins, fmt=fmt, what="adjoint")
    S = op.to_scipy()
    M = zoo.operand(dims(ins), 2)
    zoo.expect(ctx, torch.from_numpy(S @ M.numpy()), A @ M, "SciPy export")
    for name, X in invalid_operands(ins, A.dtype).items():
        expect_refused(ctx, op, X, name)


def library(ctx):
    """Invariants of each operator, with its own matrix as reference."""
    kind = ctx.choose("kind", ALL, free=True)
    arch = ctx.choose("arch", ["mlp", "conv", "nobias", "deep", "seq", "mixed", "strided", "chlast"])
    loss = ctx.choose("loss", LOSSES)
    red = ctx.choose("reduction", REDUCTIONS)
    sizes = [[3]] if kind == "ACT" else [[2, 1], [3], [1, 1, 1], [1]]
    sizes = ctx.choose("batches", sizes)
    if kind == "ACT" and arch not in ("mlp", "nobias", "deep"):
        ctx.skip()
    n = zoo.num_params(arch)
    sel = ctx.pick("params", {"all": None, "reversed": list(range(n))[::-1], "one": [n - 1],
                              "rot": list(range(1, n)) + [0]})
    dtype = ctx.choose("dtype", [F64, torch.float32])
    P = Problem(arch, loss, red, N=sum(sizes), C=2, sizes=sizes, params=sel, dtype=dtype)
    op = make_op(kind, P)
    ins, outs = spaces(kind, P)
    Din, Dout = dims(ins), dims(outs)
    ctx.check(tuple(op.shape) == (Dout, Din), f"shape {tuple(op.shape)} instead of {(Dout, Din)}")
    E = op @ torch.eye(Din, dtype=dtype)
    ref = reference(kind, P)
    tol = dict(rtol=1e-8, atol=1e-10) if dtype == F64 else dict(rtol=2e-4, atol=1e-5)
    if kind == "KINV" or kind == "KINV-exact":
        tol = dict(rtol=1e-7, atol=1e-8) if dtype == F64 else dict(rtol=2e-2, atol=1e-3)
    if ref is not None:
        zoo.expect(ctx, E, ref, "matrix", **tol)
    test = ctx.choose("test", ["formats", "adjoint", "invalid", "linear", "result", "psd", "integer"], free=True)
    if test == "formats":
        for fmt in zoo.FORMATS:
            zoo.check_product(ctx, op, E.double(), ins, outs, dtype=dtype, fmt=fmt, **tol)
    elif test == "adjoint":
        A = op.adjoint()
        ctx.check(tuple(A.shape) == (Din, Dout), "shape of the adjoint")
        for fmt in ("mat3", "listvec", "listmat", "vec"):
            zoo.check_product(ctx, A, E.T.double(), outs, ins, dtype=dtype, fmt=fmt, what="adjoint", **tol)
        AA = A.adjoint()
        zoo.check_product(ctx, AA, E.double(), ins, outs, dtype=dtype, fmt="mat3", what="adjoint of the adjoint", **tol)
        if kind in SYMMETRIC:
            zoo.expect(ctx, E, E.T, "symmetry", **tol)
    elif test == "invalid":
        for name, X in invalid_operands(ins, dtype).items():
            expect_refused(ctx, op, X, name)
        zoo.expect(ctx, op @ torch.eye(Din, dtype=dtype), E, "product after refused operands", **tol)
    elif test == "linear":
        M = zoo.operand(Din, 2, dtype)
        zoo.expect(ctx, op @ (3 * M[:, 0] - 0.5 * M[:, 1]), 3 * (op @ M[:, 0]) - 0.5 * (op @ M[:, 1]), "linearity", **tol)
        Z = op @ torch.zeros(Din, 2, dtype=dtype)
        ctx.check(float(Z.abs().max()) == 0, "zero is not mapped to zero")
    elif test == "result":
        M = zoo.operand(Din, 2, dtype)
        keep = M.clone()
        R = op @ M
        first = R.clone()
        R.add_(17.0)  # the result belongs to the caller
        ctx.check(torch.equal(M, keep), "the result shares memory with the operand")
        zoo.expect(ctx, op @ M, first, "product after overwriting an earlier result", **tol)
        L = zoo.to_list(M, ins)
        keep = [x.clone() for x in L]
        R = op @ L
        for r in R:
            r.add_(3.0)
        ctx.check(all(torch.equal(a, b) for a, b in zip(L, keep)), "the result shares memory with the operand list")
        zoo.expect(ctx, zoo.from_list(op @ L), first, "list product after overwriting an earlier result", **tol)
        A = op.adjoint()
        M2 = zoo.operand(Dout, 2, dtype)
        keep = M2.clone()
        (A @ M2).add_(5.0)
        ctx.check(torch.equal(M2, keep), "the adjoint's result shares memory with the operand")
    elif test == "psd":
        if kind in PSD:
            ev = torch.linalg.eigvalsh((E.double() + E.double().T) / 2)
            ctx.check(float(ev.min()) >= -1e-6 * float(ev.abs().max() + 1e-9) if dtype == F64
                      else float(ev.min()) >= -1e-3 * float(ev.abs().max() + 1e-3), f"negative eigenvalue {float(ev.min())}")
    elif test == "integer":
        # columns are handled independently: permuting, repeating, dropping columns
        M = zoo.operand(Din, 4, dtype)
        R = op @ M
        for cols in ([3, 1], [0, 0, 2], [2], [1, 3, 0, 2]):
            zoo.expect(ctx, op @ M[:, cols], R[:, cols], f"columns {cols}", **tol)


ASSUMPTIONS = ["float64 (relative tolerance 1e-8; KFAC inverse 1e-7) and float32 (2e-4; KFAC inverse 2e-2)",
               "operands have the operator's data type and at least one column"]


def scenarios(tier):
    return [
        ("user-defined", user_defined, None,
         "all lists of up to 3 (4) input and 2 output shapes x all operand formats x all malformed operands"),
        ("library", library, 1 if tier == "quick" else 2,
         "every operator x every invariant; deviations over architecture, loss, reduction, batches, "
         "parameter order, data type"),
    ]
