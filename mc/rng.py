"""Own the randomness of the code under test.

``install_numpy()`` replaces the module-level functions of ``numpy.random`` by
dispatchers *before* curvlinops binds them; they call the original unless a
controller is active.  ``NumpyDraws(draw)`` / ``TorchDraws(draw)`` resolve every
random draw through ``draw(probabilities) -> index`` so that an ``Enumerator`` can
visit all outcomes.  Continuous draws are replaced by the two-point distribution
with the same first and second moments (``mean +- std``): the quantities judged this
way are quadratic in the draw, hence the expectation over the two-point law is exactly
the expectation over the Gaussian.
"""

import numpy as np
import numpy.random as npr

_ctl = None


class Unmodelled(Exception):
    """A random primitive the controller has no finite outcome set for."""


class _NumpyCtl:
    def __init__(self, draw):
        self.draw = draw
        self.calls = 0

    def _array(self, size, values, probs):
        self.calls += 1
        if size is None:
            return values[self.draw(probs)]
        out = np.empty(size, dtype=np.asarray(values).dtype)
        flat = out.reshape(-1)
        for i in range(flat.size):
            flat[i] = values[self.draw(probs)]
        return out

    def binomial(self, n, p, size=None):
        if np.ndim(n) or np.ndim(p) or n > 4:
            raise Unmodelled("binomial")
        from math import comb

        probs = [comb(int(n), k) * p**k * (1 - p) ** (int(n) - k) for k in range(int(n) + 1)]
        return self._array(size, list(range(int(n) + 1)), probs)

    def randn(self, *shape):
        return self._array(shape if shape else None, [-1.0, 1.0], [0.5, 0.5])

    def standard_normal(self, size=None):
        return self._array(size, [-1.0, 1.0], [0.5, 0.5])

    def normal(self, loc=0.0, scale=1.0, size=None):
        if np.ndim(loc) or np.ndim(scale):
            raise Unmodelled("normal")
        return loc + scale * self._array(size, [-1.0, 1.0], [0.5, 0.5])

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        vals = list(range(low, high))
        if len(vals) > 8:
            raise Unmodelled("randint")
        return self._array(size, vals, [1 / len(vals)] * len(vals))

    integers = randint

    def choice(self, a, size=None, replace=True, p=None, **kw):
        vals = list(range(a)) if np.ndim(a) == 0 else list(a)
        if not replace and size not in (None, 1) or len(vals) > 8:
            raise Unmodelled("choice")
        return self._array(size, vals, [1 / len(vals)] * len(vals) if p is None else list(p))

    # uniform numbers are only modelled as a fair coin around 1/2
    def rand(self, *shape):
        return self._array(shape if shape else None, [0.25, 0.75], [0.5, 0.5])

    def random(self, size=None):
        return self._array(size, [0.25, 0.75], [0.5, 0.5])

    random_sample = random


_NAMES = ["binomial", "randn", "standard_normal", "normal", "randint", "choice", "rand",
          "random", "random_sample"]
_orig = {}


def _dispatcher(name):
    orig = _orig[name]

    def f(*a, **k):
        if _ctl is not None:
            return getattr(_ctl, name)(*a, **k)
        return orig(*a, **k)

    f.__name__ = name
    return f


class _RngProxy:
    """Stand-in for a ``Generator``/``RandomState`` while a controller is active."""

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return getattr(_ctl, name)


def install_numpy():
    if _orig:
        return
    for n in _NAMES:
        _orig[n] = getattr(npr, n)
    for n in _NAMES:
        setattr(npr, n, _dispatcher(n))
    orig_default_rng = npr.default_rng

    def default_rng(*a, **k):
        return _RngProxy() if _ctl is not None else orig_default_rng(*a, **k)

    npr.default_rng = default_rng


class NumpyDraws:
    """Context: all numpy draws are resolved through ``draw``."""

    def __init__(self, draw):
        self.ctl = _NumpyCtl(draw)

    def __enter__(self):
        global _ctl
        assert _ctl is None
        _ctl = self.ctl
        return self.ctl

    def __exit__(self, *exc):
        global _ctl
        _ctl = None


def ScriptedNormals(vectors):
    """Context: successive numpy normal draws return the given vectors (history replay)."""
    it = iter(vectors)

    class _Ctl(_NumpyCtl):
        def __init__(self):
            super().__init__(None)
            self.served = 0

        def _serve(self, size):
            v = np.array(next(it), dtype=float)
            self.served += 1
            if size is not None:
                v = v.reshape(size)
            return v

        def randn(self, *shape):
            return self._serve(shape)

        def standard_normal(self, size=None):
            return self._serve(size)

        def normal(self, loc=0.0, scale=1.0, size=None):
            return loc + scale * self._serve(size)

        def _array(self, size, values, probs):
            raise Unmodelled("expected a normal draw")

    class _Scope(NumpyDraws):
        def __init__(self):
            self.ctl = _Ctl()

    return _Scope()


def torch_draws(draw):
    """A TorchDispatchMode resolving every torch random op through ``draw``.

    The real primitive is executed too (its result is dropped), so that generators advance
    as they do in production.  A draw from a generator state that was seen before returns what
    was drawn then: a stream that is re-seeded repeats its outcomes instead of branching.
    """
    import torch
    from torch.utils._python_dispatch import TorchDispatchMode

    free = draw
    stream = {"key": None, "pos": 0}
    memo = {}

    def draw(probs):
        k = (stream["key"], stream["pos"])
        stream["pos"] += 1
        if k not in memo or memo[k] >= len(probs) or probs[memo[k]] <= 0:
            memo[k] = free(probs)
        return memo[k]

    def enter(func, args, kwargs):
        g = kwargs.get("generator")
        g = torch.default_generator if g is None else g
        stream["key"], stream["pos"] = g.get_state().numpy().tobytes(), 0
        if func._schema.name.endswith("_"):
            args = (args[0].clone(), *args[1:])
        func(*args, **kwargs)

    def two_point(shape, dtype, device):
        t = torch.empty(shape, dtype=dtype, device=device)
        flat = t.reshape(-1)
        vals = [(-1.0 if draw([0.5, 0.5]) == 0 else 1.0) for _ in range(flat.numel())]
        if vals:
            flat.copy_(torch.tensor(vals, dtype=dtype))
        return t

    class Mode(TorchDispatchMode):
        calls = 0

        def __torch_dispatch__(self, func, types, args=(), kwargs=None):
            kwargs = kwargs or {}
            name = func._schema.name.split("::")[1]
            if name in ("normal", "normal_", "normal_functional", "randn", "randn_like", "multinomial",
                        "bernoulli", "bernoulli_"):
                enter(func, args, kwargs)
            if name in ("normal", "normal_", "normal_functional"):
                self.calls += 1
                if func._overloadname == "float_float" or (
                        name == "normal" and not any(isinstance(a, torch.Tensor) for a in args[:2])):
                    mean, std, size = args[0], args[1], args[2]
                    return mean + std * two_point(size, kwargs.get("dtype") or torch.get_default_dtype(), "cpu")
                if name == "normal_":
                    self_, mean, std = args[0], *(list(args[1:3]) + [0.0, 1.0][len(args) - 1:])
                    return self_.copy_(mean + std * two_point(self_.shape, self_.dtype, self_.device))
                mean = args[0]
                std = args[1] if len(args) > 1 else kwargs.get("std", 1.0)
                ref = mean if isinstance(mean, torch.Tensor) else std
                shape = torch.broadcast_shapes(
                    getattr(mean, "shape", ()), getattr(std, "shape", ()))
                return (mean + std * two_point(shape, ref.dtype, ref.device)).to(ref.dtype)
            if name == "randn":
                self.calls += 1
                return two_point(args[0], kwargs.get("dtype") or torch.get_default_dtype(), "cpu")
            if name == "randn_like":
                self.calls += 1
                return two_point(args[0].shape, kwargs.get("dtype") or args[0].dtype, "cpu")
            if name == "multinomial":
                self.calls += 1
                probs, m = args[0], args[1]
                replacement = args[2] if len(args) > 2 else kwargs.get("replacement", False)
                p2 = probs if probs.ndim == 2 else probs.unsqueeze(0)
                out = torch.empty(p2.shape[0], m, dtype=torch.int64)
                for i in range(p2.shape[0]):
                    row = p2[i].double()
                    for j in range(m):
                        row = row / row.sum()
                        k = draw(row.tolist())
                        out[i, j] = k
                        if not replacement:
                            row = row.clone()
                            row[k] = 0.0
                return out if probs.ndim == 2 else out.squeeze(0)
            if name == "bernoulli" and len(args) == 1:
                self.calls += 1
                p = args[0]
                flat = p.reshape(-1).tolist()
                vals = [float(draw([1 - q, q])) for q in flat]
                return torch.tensor(vals, dtype=p.dtype).reshape(p.shape)
            if name == "bernoulli_":
                self.calls += 1
                out = args[0]
                p = args[1] if len(args) > 1 else 0.5
                p = p.expand_as(out) if isinstance(p, torch.Tensor) else torch.full(out.shape, float(p))
                vals = [float(draw([1 - q, q])) for q in p.reshape(-1).tolist()]
                return out.copy_(torch.tensor(vals, dtype=out.dtype).reshape(out.shape))
            if name in ("rand", "rand_like", "uniform_", "uniform", "randint", "random_",
                        "exponential_", "exponential", "randperm", "log_normal_", "cauchy_",
                        "geometric_"):
                raise Unmodelled(f"torch.{name}")
            return func(*args, **kwargs)

    return Mode()
