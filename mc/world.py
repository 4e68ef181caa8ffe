"""Snapshots of everything an operator may touch but must leave alone."""

import gc
import os
import random
import sys
import threading
import warnings

import numpy as np
import torch


def _t(x):
    return None if x is None else x.detach().clone()


def _same(a, b):
    if a is None or b is None:
        return a is b
    return a.dtype == b.dtype and a.shape == b.shape and torch.equal(a, b)


HOOKS = ["_forward_hooks", "_forward_pre_hooks", "_backward_hooks", "_backward_pre_hooks",
         "_forward_hooks_with_kwargs", "_forward_hooks_always_called"]


def _loader_state(data):
    return [(a, b) for a, b in data] if isinstance(data, list) else None


SIMPLE = (bool, int, float, str, tuple, type(None))


def _settings(module):
    """Plain-valued attributes (hyper-parameters) of every sub-module."""
    return [(n, k, v) for n, m in module.named_modules() for k, v in sorted(m.__dict__.items())
            if isinstance(v, SIMPLE) and k != "training"]


def _blanket_filters():
    """Filters for whole classes of warnings (lazily imported packages add specific ones)."""
    return [f for f in warnings.filters if f[1] is None and f[3] is None and f[4] == 0
            and f[2] in (Warning, UserWarning, RuntimeWarning, DeprecationWarning, FutureWarning)]


def _process():
    """Settings of the process and the libraries that any code may change."""
    return {
        "warning filters": _blanket_filters(), "warning display": warnings.showwarning,
        "torch print options": dict(torch._tensor_str.PRINT_OPTS.__dict__),
        "NumPy print options": {k: v for k, v in np.get_printoptions().items()},
        "matrix product precision": torch.get_float32_matmul_precision(),
        "number of threads": (torch.get_num_threads(), torch.get_num_interop_threads()),
        "deterministic algorithms": (torch.are_deterministic_algorithms_enabled(),
                                     torch.is_deterministic_algorithms_warn_only_enabled()),
        "anomaly mode": torch.is_anomaly_enabled(), "inference mode": torch.is_inference_mode_enabled(),
        "default device": torch.tensor(0).device, "default data type": torch.get_default_dtype(),
        "gradient mode": torch.is_grad_enabled(), "autocast": torch.is_autocast_enabled("cpu"),
        "multithreaded backward": torch.autograd.is_multithreading_enabled(),
        "backends": (torch.backends.mkldnn.enabled if hasattr(torch.backends.mkldnn, "enabled") else None,
                     torch.backends.cudnn.enabled, torch.backends.cudnn.benchmark, torch.backends.cudnn.deterministic,
                     torch.backends.opt_einsum.enabled, torch.backends.opt_einsum.strategy),
        "NumPy error handling": (dict(np.geterr()), np.geterrcall()),
        "environment": dict(os.environ), "working directory": os.getcwd(), "module path": list(sys.path),
        "recursion limit": sys.getrecursionlimit(), "garbage collection": gc.isenabled(),
        "hooks for exceptions": (sys.excepthook, threading.excepthook), "streams": (sys.stdout, sys.stderr),
    }


class Snapshot:
    """State of a problem and of the process."""

    def __init__(self, P, rng=True):
        self.P, self.rng = P, rng
        m = P.model
        self.params = [(p, _t(p), p.grad, _t(p.grad), p.requires_grad, p.is_leaf) for p in P.all_params]
        self.plist = list(P.params)
        self.phooks = [self._num(p) for p in P.all_params]
        if isinstance(m, torch.nn.Module):
            self.modes = [(n, k.training) for n, k in m.named_modules()]
            self.buffers = [(n, _t(b)) for n, b in m.named_buffers()]
            self.hooks = [(n, h, list(getattr(k, h))) for n, k in m.named_modules() for h in HOOKS if hasattr(k, h)]
            self.names = [n for n, _ in m.named_parameters()]
            self.settings = _settings(m)
            self.attrs = [(n, sorted(k.__dict__)) for n, k in m.named_modules()]
            self.forwards = [(n, k.__dict__.get("forward")) for n, k in m.named_modules()]
        self.loss = (P.loss_func, getattr(P.loss_func, "reduction", None),
                     getattr(P.loss_func, "training", None),
                     len(getattr(P.loss_func, "_forward_hooks", ())))
        self.loss_state = _loss_state(P.loss_func)
        self.process = _process()
        self.data = [(X, y, _copy(X), _t(y)) for X, y in P.data] if isinstance(P.data, list) else None
        self.grad_mode = torch.is_grad_enabled()
        self.dtype = torch.get_default_dtype()
        self.det = (torch.are_deterministic_algorithms_enabled(), torch.get_num_threads())
        self.anomaly = torch.is_anomaly_enabled()
        self.states = (torch.get_rng_state(), np.random.get_state(), random.getstate())
        self.np_err = dict(np.geterr())

    @staticmethod
    def _num(p):
        return (len(p._backward_hooks or ()), len(getattr(p, "_post_accumulate_grad_hooks", None) or ()))

    def difference(self):
        """Description of the first thing that changed, or None."""
        P, m = self.P, self.P.model
        if len(P.params) != len(self.plist) or any(a is not b for a, b in zip(P.params, self.plist)):
            return "the list of parameters"
        for p, v, g, gv, rg, leaf in self.params:
            if not _same(p.detach(), v):
                return "a parameter's value"
            if p.grad is not g:
                return "a parameter's .grad object"
            if not _same(p.grad, gv):
                return "a parameter's .grad value"
            if p.requires_grad != rg or p.is_leaf != leaf:
                return "a parameter's requires_grad"
        if [self._num(p) for p in P.all_params] != self.phooks:
            return "the hooks of a parameter"
        if isinstance(m, torch.nn.Module):
            if [(n, k.training) for n, k in m.named_modules()] != self.modes:
                return "training/evaluation mode of a module"
            now = list(m.named_buffers())
            if [n for n, _ in now] != [n for n, _ in self.buffers] or any(
                    not _same(b.detach(), v) for (_, b), (_, v) in zip(now, self.buffers)):
                return "a buffer"
            if [(n, h, list(getattr(k, h))) for n, k in m.named_modules() for h in HOOKS if hasattr(k, h)] != self.hooks:
                return "the hooks of a module"
            if [n for n, _ in m.named_parameters()] != self.names:
                return "the names of the parameters"
            if [(n, sorted(k.__dict__)) for n, k in m.named_modules()] != self.attrs:
                return "the attributes of a module"
            if [(n, k.__dict__.get("forward")) for n, k in m.named_modules()] != self.forwards:
                return "the forward pass of a module"
            if _settings(m) != self.settings:
                return "a hyper-parameter of a module"
        if self.loss != (P.loss_func, getattr(P.loss_func, "reduction", None), getattr(P.loss_func, "training", None),
                         len(getattr(P.loss_func, "_forward_hooks", ()))):
            return "the loss function"
        if not _same_loss(_loss_state(P.loss_func), self.loss_state):
            return "an attribute of the loss function"
        if self.data is not None:
            if len(P.data) != len(self.data):
                return "the list of mini-batches"
            for (X, y), (X0, y0, Xv, yv) in zip(P.data, self.data):
                if X is not X0 or y is not y0:
                    return "the list of mini-batches"
                if not _same_data(X, Xv) or not _same(y, yv):
                    return "the data"
                if torch.is_tensor(X) and (X.requires_grad or X.grad is not None):
                    return "requires_grad or .grad of the data"
        if torch.is_grad_enabled() != self.grad_mode:
            return "the global gradient mode"
        if torch.get_default_dtype() != self.dtype:
            return "the default data type"
        if (torch.are_deterministic_algorithms_enabled(), torch.get_num_threads()) != self.det:
            return "global backend settings"
        if torch.is_anomaly_enabled() != self.anomaly or dict(np.geterr()) != self.np_err:
            return "global error handling"
        now = _process()
        # (lazily imported packages may add variables)
        now["environment"] = {k: v for k, v in now["environment"].items() if k in self.process["environment"]}
        changed = [k for k in now if now[k] != self.process[k]]
        if changed:
            return "global settings: " + ", ".join(changed)
        if self.rng:
            a, b, c = self.states
            if not torch.equal(a, torch.get_rng_state()):
                return "torch's global random state"
            s = np.random.get_state()
            if s[0] != b[0] or not np.array_equal(s[1], b[1]) or s[2:] != b[2:]:
                return "NumPy's global random state"
            if random.getstate() != c:
                return "Python's global random state"
        return None


def _loss_state(f):
    return {k: _t(v) if torch.is_tensor(v) else v for k, v in getattr(f, "__dict__", {}).items()
            if isinstance(v, SIMPLE) or torch.is_tensor(v)} | {
        "buffer " + k: _t(v) for k, v in (f.named_buffers() if isinstance(f, torch.nn.Module) else [])}


def _same_loss(a, b):
    return a.keys() == b.keys() and all(
        _same(a[k], b[k]) if torch.is_tensor(a[k]) or torch.is_tensor(b[k]) else a[k] == b[k] for k in a)


def _copy(X):
    return X.detach().clone() if torch.is_tensor(X) else {k: _t(v) if torch.is_tensor(v) else v for k, v in X.items()}


def _same_data(X, v):
    if torch.is_tensor(X):
        return _same(X, v)
    return list(X.keys()) == list(v.keys()) and all(
        _same(X[k], v[k]) if torch.is_tensor(X[k]) else X[k] == v[k] for k in v)
