"""C12: the SciPy export computes the same products, for every array NumPy can hand over."""

import numpy as np
import scipy.sparse.linalg as sla

from checks.common import *
from checks.ops import *
from mc import zoo

ENTRY = ["@", "matvec", "matvec-column", "matmat", "rmatvec", "rmatvec-column", "rmatmat", "T@", "H@", "adjoint",
         "dot", "*", "sum", "scaled", "product", "T.T", "power", "eye", "int"]
ARRAYS = ["float64", "float32", "int64", "int32", "complex128", "complex64", "float16", "fortran", "strided",
          "readonly", "reversed", "bool", "uint8", "matrix", "list", "longdouble", "clongdouble", ">f8", ">f4",
          ">i4", ">c16", "uint16", "int8", "uint64", "scalar strides",
          "partly real", "partly imaginary", "real as complex", "zeros", "zero column"]


def array(kind, D, K):
    """A NumPy operand with shape [D, K] and the values it stands for."""
    M = zoo.operand(D, K).numpy()
    if kind in ("float64", "matrix", "list"):
        return M
    if kind in ("float32", "float16"):
        return M.astype(kind)
    if kind in ("longdouble", ">f8", ">f4"):
        return M.astype(kind)
    if kind in ("clongdouble", ">c16"):
        return (M + 1j * M[::-1] * 0.5).astype(kind)
    if kind in ("int64", "int32", ">i4"):
        return np.round(M * 7).astype(kind)
    if kind == "int8":
        return (np.round(M * 7) % 100 - 50).astype(kind)
    if kind in ("uint16", "uint64"):
        return np.abs(np.round(M * 7)).astype(kind)
    if kind == "scalar strides":
        return np.broadcast_to(M[:1, :1], M.shape)
    if kind == "uint8":
        return (np.abs(np.round(M * 7)) % 200).astype(np.uint8)
    if kind == "bool":
        return M > 0
    if kind in ("complex128", "complex64"):
        return (M + 1j * M[::-1] * 0.5).astype(kind)
    if kind in ("partly real", "partly imaginary", "real as complex"):
        Z = M + 1j * M[::-1] * 0.5
        if kind == "partly imaginary":
            Z[:, -1] = 1j * M[:, -1]
            Z[:1] = Z[:1].imag * 1j
        elif kind == "partly real":
            Z[:, -1] = M[:, -1]
            Z[1:, 0] = M[1:, 0]
        else:
            Z = M + 0j
        return Z
    if kind == "zeros":
        return np.zeros_like(M)
    if kind == "zero column":
        M = M.copy()
        M[:, -1] = 0.0
        return M
    if kind == "fortran":
        return np.asfortranarray(M)
    if kind == "strided":
        big = np.zeros((2 * D, 2 * K))
        big[::2, ::2] = M
        return big[::2, ::2]
    if kind == "reversed":
        return M[::-1, ::-1]
    M = M.copy()
    M.flags.writeable = False
    return M


def apply(S, E, entry, X):
    """(result of the export, dense result)."""
    x = X[:, 0]
    if entry == "@":
        return S @ X, E @ X
    if entry == "matvec":
        return S.matvec(x), E @ x
    if entry == "matvec-column":
        return S.matvec(X[:, :1]), E @ X[:, :1]
    if entry == "matmat":
        return S.matmat(X), E @ X
    if entry == "dot":
        return S.dot(x), E @ x
    if entry == "*":
        return S * x, E @ x
    if entry == "sum":
        return (S + S) @ X, 2 * (E @ X)
    if entry == "scaled":
        return (2.5 * S) @ X, 2.5 * (E @ X)
    if entry == "T.T":
        return S.T.T @ X, E @ X
    if entry == "eye":
        return S @ np.eye(E.shape[1]), E
    if entry == "int":
        return S @ np.eye(E.shape[1], dtype=int), E
    raise ValueError(entry)


def apply_adjoint(S, E, entry, Y):
    y = Y[:, 0]
    Et = E.T
    if entry == "rmatvec":
        return S.rmatvec(y), Et @ y
    if entry == "rmatvec-column":
        return S.rmatvec(Y[:, :1]), Et @ Y[:, :1]
    if entry == "rmatmat":
        return S.rmatmat(Y), Et @ Y
    if entry == "T@":
        return S.T @ Y, Et @ Y
    if entry == "H@":
        return S.H @ Y, Et @ Y
    return S.adjoint() @ y, Et @ y


def scenario(ctx):
    kind = ctx.choose("kind", ALL, free=True)
    entry = ctx.choose("entry", ENTRY, free=True)
    arr = ctx.choose("array", ARRAYS, free=True)
    dtype = ctx.choose("dtype", [F64, torch.float32, torch.bfloat16])
    sdtype = ctx.choose("export dtype", [None, np.float64, np.float32])
    K = ctx.choose("columns", [2, 1, 3])
    if dtype == torch.bfloat16 and kind not in ("H", "GGN", "EF", "KFAC", "J", "JT", "H-blocks"):
        ctx.skip()
    if kind in NO_LOSS and ctx.choose("square", [False, True], free=True):
        P = Problem("linear", "mse", "mean", N=4, C=2, sizes=[3, 1], dtype=dtype)  # a square Jacobian
        assert P.N * P.C == P.D
    else:
        P = Problem("mlp", "mse", "mean", N=3, C=2, sizes=[3] if kind == "ACT" else [2, 1], dtype=dtype)
    op = make_op(kind, P)
    ins, outs = spaces(kind, P)
    ref = reference(kind, P) if dtype == F64 else None
    if ref is None:
        ref = op @ torch.eye(dims(ins), dtype=dtype)
    E = ref.double().numpy()
    S = op.to_scipy() if sdtype is None else op.to_scipy(dtype=sdtype)
    ctx.check(isinstance(S, sla.LinearOperator) and tuple(S.shape) == E.shape, "type or shape of the export")
    ctx.check(S.dtype == np.dtype(sdtype), f"export data type {S.dtype}")
    adjoint = entry in ("rmatvec", "rmatvec-column", "rmatmat", "T@", "H@", "adjoint")
    X = array(arr, E.shape[0] if adjoint else E.shape[1], K)
    if arr == "list" and entry in ("@", "matmat", "rmatmat", "T@", "H@", "dot", "*", "sum", "scaled", "T.T"):
        ctx.skip()
    keep = X.copy()
    if entry in ("power", "product"):
        if E.shape[0] != E.shape[1]:
            got, want = (S.T @ S) @ X, E.T @ (E @ X)
        elif entry == "power":
            got, want = (S**2) @ X, E @ (E @ X)
        else:
            got, want = (S @ S) @ X, E @ (E @ X)
    elif adjoint:
        got, want = apply_adjoint(S, E, entry, X)
    else:
        got, want = apply(S, E, entry, X)
    ctx.check(isinstance(got, np.ndarray) and got.shape == want.shape, f"shape {np.shape(got)} instead of {want.shape}")
    ctx.check(np.array_equal(keep, X), "the operand was modified")
    if entry not in ("eye", "int", "sum", "scaled", "power", "product"):
        ok = got.dtype.newbyteorder("=") == X.dtype.newbyteorder("=") if X.dtype.kind in "fc" else got.dtype.kind == "f"
        ctx.check(ok, f"{X.dtype} operand gives {got.dtype}")
    low = "float16" if arr == "float16" else None
    rtol = {F64: 1e-8, torch.float32: 5e-4, torch.bfloat16: 0.2}[dtype]
    if kind in ("KINV", "KINV-exact"):
        rtol = max(rtol * 20, 1e-7)
    if arr in ("float32", "complex64", ">f4"):
        rtol = max(rtol, 1e-5)
    if low:
        rtol = max(rtol, 5e-3)
        if not np.isfinite(got).all():
            ctx.skip()  # overflow of half precision
    scale = np.abs(want).max() + 1e-30
    err = np.abs(got.astype(complex) - want).max()
    ctx.check(np.isfinite(got).all() and err <= rtol * scale + (1e-10 if dtype == F64 else 1e-5),
              lambda: f"{entry} on {arr}: error {err:.3e}, scale {scale:.3e}")


def algorithms(ctx):
    """SciPy's own algorithms on the export agree with dense linear algebra."""
    kind = ctx.choose("kind", [k for k in ALL if k not in ("MC", "KFAC-mc")], free=True)
    algo = ctx.choose("algorithm", ["eigsh", "svds", "lsmr", "cg", "aslinearoperator", "power iteration", "interleaved"], free=True)
    arch = ctx.choose("arch", ["mlp", "nobias"], free=True)
    P = Problem(arch, ctx.choose("loss", LOSSES, free=True), "mean", N=3, C=2, sizes=[3])
    op = make_op(kind, P)
    S = op.to_scipy()
    E = reference(kind, P).numpy()
    sym = kind in SYMMETRIC
    if algo == "eigsh":
        if not sym:
            ctx.skip()
        got = np.sort(sla.eigsh(S, k=2, which="LM", v0=np.ones(E.shape[0]), return_eigenvectors=False))
        ev = np.linalg.eigvalsh(E)
        want = np.sort(ev[np.argsort(-np.abs(ev))[:2]])
        ctx.check(np.allclose(np.abs(got), np.abs(want), rtol=1e-5, atol=1e-7), f"{got} vs {want}")
    elif algo == "svds":
        got = np.sort(sla.svds(S, k=2, return_singular_vectors=False, v0=np.ones(min(E.shape))))
        want = np.sort(np.linalg.svd(E, compute_uv=False))[-2:]
        ctx.check(np.allclose(got, want, rtol=1e-5, atol=1e-6), f"{got} vs {want}")
    elif algo == "lsmr":
        b = E @ np.linspace(-1, 1, E.shape[1])
        x = sla.lsmr(S, b, atol=1e-13, btol=1e-13, conlim=0, maxiter=400)[0]
        ctx.check(np.linalg.norm(E @ x - b) <= 1e-5 * np.linalg.norm(b), "residual of LSMR")
    elif algo == "cg":
        if not sym:
            ctx.skip()
        shift = 1.0 + max(0, -2 * np.linalg.eigvalsh(E).min())
        b = np.linspace(-1, 1, E.shape[1])
        D = S + sla.aslinearoperator(shift * np.eye(E.shape[0]))
        x, info = sla.cg(D, b, rtol=1e-12, maxiter=500)
        ctx.check(info == 0 and np.linalg.norm(E @ x + shift * x - b) <= 1e-8, "residual of CG")
    elif algo == "aslinearoperator":
        ctx.check(sla.aslinearoperator(S) is S, "identity")
        ctx.check(np.allclose((S @ np.eye(E.shape[1])), E, atol=1e-7 * max(1, np.abs(E).max())), "dense")
    elif algo == "interleaved":
        x, y = np.linspace(-1, 2, E.shape[1]), np.linspace(1, -1, E.shape[0])
        a1, b1 = S.matvec(x), S.rmatvec(y)
        a2, b2 = S.matvec(x), S.rmatvec(y)
        ctx.check(np.allclose(a1, a2, rtol=1e-9) and np.allclose(b1, b2, rtol=1e-9), "repeat")
        ctx.check(abs(y @ a1 - x @ b1) <= 1e-9 * (1 + abs(y @ a1)), "y.(Ax) = x.(A'y)")
    else:
        v = np.cos(np.arange(E.shape[1]) * 1.7)
        w = v.copy()
        for _ in range(3):
            v = S.rmatvec(S.matvec(v))
            w = E.T @ (E @ w)
            v, w = v / np.linalg.norm(v), w / np.linalg.norm(w)
        ctx.check(np.allclose(v, w, atol=1e-5), "power iteration")


ASSUMPTIONS = ["relative tolerance 1e-8 in float64, 5e-4 in float32, 0.2 in bfloat16 (mlp, MSE)",
               "floating-point and complex operands keep their data type (the package's convention); "
               "integer and boolean operands give floating-point results"]


def scenarios(tier):
    return [
        ("entry points", scenario, 0 if tier == "quick" else 2,
         "full product operator x entry point x kind of NumPy array; operator/export data type and "
         "number of columns as deviations"),
        ("data types", scenario_dtypes, 2 if tier == "quick" else 3, "deviations over data types, columns, arrays, entry points"),
        ("algorithms", algorithms, None, "full product operator x SciPy algorithm x model x loss"),
    ]


class _NotFree:
    """The same scenario with every choice counted as a deviation."""

    def __init__(self, ctx):
        self.__dict__["c"] = ctx

    def choose(self, name, options, free=False, cost=1):
        return self.c.choose(name, options, free=name == "kind", cost=cost)

    def __getattr__(self, k):
        return getattr(self.c, k)


def scenario_dtypes(ctx):
    scenario(_NotFree(ctx))
