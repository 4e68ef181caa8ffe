"""C24: cached spectral densities over all call histories."""

from itertools import product

import numpy as np
from scipy.sparse.linalg import LinearOperator, aslinearoperator

from checks.c18 import Op
from checks.c23 import MATRICES, close, density, lanczos, log_density, start
from checks.common import *
from mc import rng

# hyper-parameters of a call (without num_repeats); {} are the documented defaults
SETTINGS = {
    "base": dict(num_points=9, kappa=3.0, margin=0.05),
    "narrow": dict(num_points=9, kappa=20.0, margin=0.05),
    "other": dict(num_points=12, kappa=2.0, margin=0.3),
    "default": {},
}
NAMES = ["positive", "generic 4", "generic 3"]
NCV = 3


def cls(log):
    import curvlinops as c

    return c.LanczosApproximateLogSpectrumCached if log else c.LanczosApproximateSpectrumCached


def evaluate(log, obj, reps, setting):
    f = obj.approximate_log_spectrum if log else obj.approximate_spectrum
    kw = dict(SETTINGS[setting])
    if reps is not None:
        kw["num_repeats"] = reps
    return f(**kw)


def expected(log, A, runs, bounds, setting):
    kw = {**({"kappa": 3.0} if log else {}), **SETTINGS[setting]}
    return (log_density if log else density)(runs, bounds, **kw)


def edges(A, log):
    ev = np.linalg.eigvalsh(A)
    ev = np.abs(ev) if log else ev
    return float(ev.min()), float(ev.max())


def histories(length):
    def fn(ctx):
        log = ctx.choose("class", ["plain", "log"], free=True) == "log"
        objects = ctx.choose("objects", [1, 2], free=True)
        matrix = ctx.choose("matrix", NAMES)
        wrap = ctx.choose("operator", ["matrix", "user"])
        spoil = ctx.choose("user overwrites results", [False, True])
        ncv = ctx.choose("ncv", [NCV, 2])
        As = [MATRICES[matrix](), MATRICES["generic 4" if matrix != "generic 4" else "positive"]()][:objects]
        objs, bounds = [], []
        for A in As:
            b = edges(A, log)
            objs.append(cls(log)((aslinearoperator if wrap == "matrix" else Op)(A), ncv, boundaries=b))
            bounds.append(b)
        runs = [[] for _ in As]
        served = [0]
        calls = list(product(range(objects), [1, 2, 3] if objects == 1 else [1, 2]))
        for step in range(length):
            k, reps = ctx.choose(f"call {step}", calls, free=True)
            setting = ctx.choose(f"setting {step}", list(SETTINGS) if step else ["base", "default"])
            missing = max(reps - len(runs[k]), 0)
            vs = [start(len(As[k]), served[0] + j) for j in range(missing)]
            served[0] += missing
            with rng.ScriptedNormals(vs + [np.ones(len(As[k]))] * 3) as ctl:
                got = evaluate(log, objs[k], reps, setting)
            ctx.check(ctl.served == missing, f"call {step}: {ctl.served} runs, {missing} were missing")
            runs[k] += [lanczos(As[k], v, ncv) for v in vs]
            want = expected(log, As[k], runs[k][:reps], bounds[k], setting)
            close(ctx, got, want, f"call {step} ({reps} repeats, {setting})", 1e-6)
            if spoil:
                for a in got:
                    a *= -3.0
    return fn


def long(ctx):
    """Few and many repeats alternate: every call averages the first runs, however many there are."""
    log = ctx.choose("class", ["plain", "log"], free=True) == "log"
    first = ctx.choose("first", [1, 2, 9], free=True)
    many = ctx.choose("many", [11, 17, 33, 65, 130], free=True)
    again = ctx.choose("again", [1, 3, 10, 11, 40], free=True)
    setting = ctx.choose("setting", ["base", "other"], free=True)
    A = MATRICES["positive"]()
    b = edges(A, log)
    obj = cls(log)(aslinearoperator(A), NCV, boundaries=b)
    vs = [start(5, j) for j in range(max(first, many, again))]
    runs = [lanczos(A, v, NCV) for v in vs]
    served = 0
    for step, reps in enumerate([first, many, again, first, many]):
        with rng.ScriptedNormals(vs[served:] + [np.ones(5)] * 3) as ctl:
            got = evaluate(log, obj, reps, setting)
        ctx.check(ctl.served == max(reps - served, 0), f"call {step}: {ctl.served} runs after {served} for {reps} repeats")
        served += ctl.served
        close(ctx, got, expected(log, A, runs[:reps], b, setting), f"call {step} ({reps} repeats)", 1e-6)


class Fault(Exception):
    pass


class Flaky(LinearOperator):
    def __init__(self, A, k):
        super().__init__(A.dtype, A.shape)
        self.A, self.k, self.n = A, k, 0

    def _matvec(self, x):
        self.n += 1
        if self.n == self.k:
            raise Fault
        return self.A @ x


def faults(ctx):
    """A failing product leaves only complete runs behind."""
    log = ctx.choose("class", ["plain", "log"], free=True) == "log"
    k = ctx.choose("failing product", list(range(1, 13)), free=True)
    first, second = ctx.choose("repeats", [(2, 1), (1, 3), (3, 3), (3, 2), (2, 3)], free=True)
    A = MATRICES["positive"]()
    b = edges(A, log)
    op = Flaky(A, k)
    obj = cls(log)(op, NCV, boundaries=b)
    vs = [start(5, j) for j in range(first)]
    failed = False
    with rng.ScriptedNormals(vs):
        try:
            evaluate(log, obj, first, "base")
        except Fault:
            failed = True
    done = (k - 1) // NCV if failed else first
    op.k = -1
    kept = [lanczos(A, v, NCV) for v in vs[:done]]
    more = [start(5, 20 + j) for j in range(3)]
    with rng.ScriptedNormals(more) as ctl:
        got = evaluate(log, obj, second, "base")
    # completed runs may or may not be kept, but nothing partial is ever averaged
    new = [lanczos(A, v, NCV) for v in more[:ctl.served]]
    pool = (kept + new)[:second] if ctl.served == max(second - done, 0) else new
    ctx.check(len(pool) == second, f"{ctl.served} new runs for {second} repeats after {done} complete runs")
    close(ctx, got, expected(log, A, pool, b, "base"), "after a failure", 1e-6)


def agreement(ctx):
    """Same start vectors: the function and the cached class agree; boundaries are estimated alike."""
    import curvlinops as c

    log = ctx.choose("class", ["plain", "log"], free=True) == "log"
    A = MATRICES[ctx.choose("matrix", NAMES + ["negative", "bulk and outlier"], free=True)]()
    reps = ctx.choose("repeats", [None, 1, 2], free=True)
    how = ctx.choose("boundaries", ["estimated", "given", "lower", "upper"], free=True)
    tol = ctx.choose("boundaries_tol", [0.0, None], free=True)
    setting = ctx.choose("setting", list(SETTINGS), free=True)
    lo, hi = edges(A, log)
    if log and lo < 1e-9 * hi:
        lo = 1e-3
        if how != "given":
            ctx.skip()
    bounds = {"estimated": None, "given": (lo, hi), "lower": (lo, None), "upper": (None, hi)}[how]
    kw = {} if bounds is None else {"boundaries": bounds}
    if tol is not None:
        kw["boundaries_tol"] = tol
    vs = [start(len(A), j) for j in range(reps or 1)]
    f = c.lanczos_approximate_log_spectrum if log else c.lanczos_approximate_spectrum
    hyper = {**({"kappa": 3.0} if log else {}), **SETTINGS[setting]}
    with rng.ScriptedNormals(vs):
        want = f(aslinearoperator(A), NCV, num_repeats=reps or 1, **hyper, **kw)
    with rng.ScriptedNormals(vs):
        got = evaluate(log, cls(log)(aslinearoperator(A), NCV, **kw), reps, setting)
    close(ctx, got, want, "cached", 1e-6 if tol == 0.0 or how == "given" else 2e-2)
    close(ctx, got, expected(log, A, [lanczos(A, v, NCV) for v in vs], (lo, hi), setting), "definition",
          1e-5 if tol == 0.0 or how == "given" else 2e-1)


ASSUMPTIONS = ["start vectors are injected where NumPy's normal numbers are drawn",
               "the operator does not change between calls"]


def scenarios(tier):
    q = tier == "quick"
    return [
        ("histories", histories(3 if q else 4), 1, "every history of 3 (4) calls over one or two objects"),
        ("faults", faults, None, "every failing product x repeats before and after"),
        ("agreement", agreement, None, "class and function on the same start vectors"),
        ("long", long, None, "histories of five calls with 1 to 130 repeats"),
    ]
