"""C10: saving and restoring KFAC and its inverse, over all operation histories."""

import io

from checks.c06 import build
from checks.c08 import DAMPINGS, inv_op, inverse_dense
from checks.common import *
from mc import refs, zoo

TOL = dict(rtol=1e-7, atol=1e-9)


def through_file(state):
    buf = io.BytesIO()
    torch.save(state, buf)
    buf.seek(0)
    return torch.load(buf, weights_only=False)


def same_entry(a, b):
    """Equality of (nested) state entries."""
    if torch.is_tensor(a) or torch.is_tensor(b):
        return torch.is_tensor(a) and torch.is_tensor(b) and a.shape == b.shape and a.dtype == b.dtype and bool(
            torch.equal(a.nan_to_num(7.25), b.nan_to_num(7.25)) and torch.equal(a.isnan(), b.isnan()))
    if hasattr(a, "keys") and hasattr(b, "keys"):
        return set(a.keys()) == set(b.keys()) and all(same_entry(a[k], b[k]) for k in a.keys())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_entry(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


def same_state(ctx, op, state, what):
    """Saving again right after restoring yields the state that was restored."""
    again = op.state_dict()
    ctx.check(set(again) == set(state), f"{what}: entries {sorted(set(again) ^ set(state))} appeared or vanished")
    bad = [k for k in state if not same_entry(again[k], state[k])]
    ctx.check(not bad, lambda: f"{what}: entries differ after restoring: "
              + "; ".join(f"{k}: {again[k]!r} instead of {state[k]!r}"[:200] for k in bad))


def make(P, cfg, cls=None, **kw):
    return build(P, cfg["fisher"], cfg["approx"], cfg["separate"], seed=cfg.get("seed", 5),
                 mc_samples=cfg.get("mc_samples", 1), **kw)


CFGS = {
    "type-2": dict(fisher="type-2", approx="expand", separate=True),
    "joint": dict(fisher="type-2", approx="expand", separate=False),
    "mc": dict(fisher="mc", approx="expand", separate=True, seed=77, mc_samples=2),
    "empirical-reduce": dict(fisher="empirical", approx="reduce", separate=True),
    "forward-joint": dict(fisher="forward-only", approx="reduce", separate=False),
}


def prob(arch, loss, red, params=None, seed=0, pseed=None, dtype=F64):
    P = Problem(arch, loss, red, N=3, C=2, sizes=[2, 1], params=params, seed=seed, dtype=dtype)
    if pseed is not None:
        zoo.init(P.model, seed=pseed, dtype=dtype)
    return P


def selections(arch):
    n = zoo.num_params(arch)
    return {"all": list(range(n)), "reversed": list(range(n))[::-1], "weights": list(range(0, n, 2)),
            "biases": list(range(1, n, 2)), "last": [n - 1], "first": [0], "no-last-bias": list(range(n - 1))}


def roundtrip(ctx):
    """Save A at some point of its life, restore elsewhere, compare everything."""
    cfg = CFGS[ctx.choose("config", list(CFGS), free=True)]
    when = ctx.choose("saved", ["after product", "fresh", "after trace", "after all properties", "after inverse"], free=True)
    into = ctx.choose("into", ["from_state_dict", "same config", "other config", "computed operator", "itself",
                               "from_state_dict+check"], free=True)
    via = ctx.choose("via", ["memory", "file"], free=True)
    arch = ctx.choose("arch", ["mlp", "conv", "seq", "twins", "many", "strided", "chlast"])
    loss = ctx.choose("loss", LOSSES)
    red = ctx.choose("reduction", REDUCTIONS)
    kw = ctx.pick("sizes", {"infer": {}, "num_data": dict(num_data=1), "terms": dict(num_per_example_loss_terms=5),
                            "both": dict(num_data=7, num_per_example_loss_terms=3)})
    sel = ctx.pick("params", selections(arch))
    from curvlinops import KFACLinearOperator

    dt = ctx.choose("dtype", [F64, torch.float32])
    TOL = dict(rtol=1e-7, atol=1e-9) if dt == F64 else dict(rtol=1e-4, atol=1e-4)
    P = prob(arch, loss, red, sel, dtype=dt)
    M = zoo.operand(P.D, 2, dt)
    A = make(P, cfg, **kw)
    want = make(P, cfg, **kw) @ M
    if when == "after product":
        A @ M
    elif when == "after trace":
        A.trace
    elif when == "after all properties":
        A.trace, A.frobenius_norm, A.det, A.logdet
    elif when == "after inverse":
        inv_op(A, damping=(0.1, 0.2)) @ M
    state = A.state_dict()
    if via == "file":
        state = through_file(state)
    Q = prob(arch, loss, red, sel, pseed=9, dtype=dt)  # same data, other parameter values
    if into.startswith("from_state_dict"):
        B = KFACLinearOperator.from_state_dict(state, Q.model, Q.params, Q.data,
                                               check_deterministic=into.endswith("check"))
    elif into == "same config":
        B = make(Q, cfg)
        B.load_state_dict(state)
    elif into == "other config":
        other = next(c for c in CFGS.values() if c["fisher"] != cfg["fisher"] and c["separate"] != cfg["separate"])
        B = make(Q, other)
        B.load_state_dict(state)
    elif into == "computed operator":
        B = make(Q, cfg)
        B @ M
        B.trace, B.frobenius_norm, B.det, B.logdet
        B.load_state_dict(state)
    else:
        Q, B = P, A
        B.load_state_dict(state)
    if not into.endswith("check"):  # (the check multiplies with the restored operator)
        same_state(ctx, B, state, "KFAC")
    ctx.check(all(torch.equal(p, q) for p, q in zip(P.all_params, Q.all_params)), "the model was not restored")
    zoo.expect(ctx, B @ M, want, "restored product", **TOL)
    ctx.check((B @ M).dtype == dt, "data type of the restored product")
    dense = make(P, cfg, **kw) @ torch.eye(P.D, dtype=P.dtype)
    zoo.expect(ctx, torch.as_tensor(B.trace), dense.trace(), "restored trace", **TOL)
    zoo.expect(ctx, torch.as_tensor(B.frobenius_norm), dense.norm(), "restored Frobenius norm", **TOL)
    zoo.expect(ctx, A @ M, want, "original product", **TOL)
    zoo.expect(ctx, B.to_scipy() @ M.numpy(), want.numpy(), "restored SciPy export", **TOL)


def alias(ctx):
    """Histories over several operators and states: none influences another."""
    depth = 4 if ctx.tier == "quick" else 5
    P = prob("mlp", "mse", "mean")
    K = refs.kfac_dense(P, refs.kfac_factors(P, "type-2", "expand", True))
    M = zoo.operand(P.D, 2)
    # the operators see different data: their factors differ when computed, not when loaded
    Q = prob("mlp", "mse", "mean", seed=1)
    Q.model.load_state_dict(P.model.state_dict())
    KQ = refs.kfac_dense(Q, refs.kfac_factors(Q, "type-2", "expand", True))
    cfg = CFGS["type-2"]
    ops = {"A": make(P, cfg), "B": make(Q, cfg)}
    own = {"A": K, "B": KQ}
    factors = {"A": None, "B": None}  # model: matrix of the computed factors
    states = []  # model: matrix in the state (None: not computed)
    for step in range(depth):
        what = ctx.choose(f"op{step}", ["A@", "B@", "save A", "save B", "load A<-last", "load B<-last",
                                        "load A<-first", "load B<-first", "B trace", "A inverse"], free=True)
        who = "A" if "A" in what else "B"
        if what in ("A@", "B@", "B trace", "A inverse"):
            if factors[who] is None:
                factors[who] = own[who]
            if what == "B trace":
                zoo.expect(ctx, torch.as_tensor(ops[who].trace), factors[who].trace(), f"trace of {who}", **TOL)
            elif what == "A inverse":
                inv_op(ops[who], damping=(0.3, 0.1)) @ M
            else:
                zoo.expect(ctx, ops[who] @ M, factors[who] @ M, f"product with {who}", **TOL)
        elif what.startswith("save"):
            states.append((ops[who].state_dict(), factors[who]))
        else:
            if not states:
                ctx.skip()
            st, f = states[-1 if "last" in what else 0]
            ops[who].load_state_dict(st)
            factors[who] = f
    for who in "AB":
        want = factors[who] if factors[who] is not None else own[who]
        zoo.expect(ctx, ops[who] @ M, want @ M, f"finally: product with {who}", **TOL)
    for st, f in states:
        C = make(Q, cfg)
        C.load_state_dict(st)
        zoo.expect(ctx, C @ M, (f if f is not None else KQ) @ M, "finally: state restored", **TOL)


MISMATCH = ["loss", "reduction", "model", "model-size", "other parameters", "fewer parameters", "other layer",
            "same shape, other layer", "weight vs bias"]


class Twin(nn.Module):
    """Layers of identical shape."""

    def __init__(self):
        super().__init__()
        self.a = nn.Linear(1, 2)
        self.b = nn.Linear(2, 2)
        self.c = nn.Linear(2, 2)

    def forward(self, x):
        return self.c(torch.tanh(self.b(torch.tanh(self.a(x[:, :1])))))


def twin(params):
    P = prob("linear", "mse", "mean")
    P.model = zoo.init(Twin(), seed=3)
    P.all_params = list(P.model.parameters())
    P.params = [P.all_params[i] for i in params]
    P.D = sum(p.numel() for p in P.params)
    P.key = ("twin", tuple(params))
    return P


def mismatch(ctx):
    """A state of something else is refused, and refusing it has no effect."""
    what = ctx.choose("mismatch", MISMATCH, free=True)
    source_computed = ctx.choose("source computed", [True, False], free=True)
    target_computed = ctx.choose("target computed", [True, False], free=True)
    level = ctx.choose("level", ["kfac", "inverse"], free=True)
    loss = ctx.choose("loss", LOSSES, free=True)
    cfg = CFGS[ctx.choose("config", ["type-2", "joint", "empirical-reduce"])]
    other_loss = LOSSES[(LOSSES.index(loss) + 1) % 3]
    mk = lambda arch="mlp", l=loss, r="mean", sel=None: prob(arch, l, r, sel, pseed=4)  # noqa: E731
    T = mk()
    if what == "loss":
        S = mk(l=other_loss)
    elif what == "reduction":
        S = mk(r="sum")
    elif what == "model":
        S = mk("branch")
    elif what == "model-size":
        S = Problem("mlp", loss, "mean", N=3, C=3, sizes=[2, 1])
    elif what == "fewer parameters":
        S = mk(sel=[0, 1])
    elif what == "other parameters":
        S, T = mk(sel=[0]), mk(sel=[2, 3])
    elif what == "other layer":
        S, T = mk(sel=[2, 3]), mk(sel=[0, 1])
    elif what == "same shape, other layer":
        S, T = twin([2, 3]), twin([4, 5])
    else:
        S, T = twin([0]), twin([1])
        # a [2, 1] weight versus a [2] bias
    if what in ("same shape, other layer", "weight vs bias") and not source_computed:
        ctx.skip()  # nothing computed: the state is indistinguishable
    if ctx.choose("target settings", ["same", "other"], free=True) == "same":
        tcfg = cfg
    else:
        tcfg = dict(fisher="forward-only" if cfg["fisher"] != "forward-only" else "type-2", approx="expand",
                    separate=not cfg["separate"])
    A, B = make(S, cfg), make(T, tcfg)
    zoo.init(S.model, seed=21)
    MS, M = zoo.operand(S.D, 2), zoo.operand(T.D, 2)
    if level == "inverse":
        A, B = inv_op(A, damping=(0.5, 0.2)), inv_op(B, damping=(0.1, 0.3))
    if source_computed:
        A @ MS
    want = make(T, tcfg) if level == "kfac" else inv_op(make(T, tcfg), damping=(0.1, 0.3))
    want = want @ M
    if target_computed:
        B @ M
    params = [p.detach().clone() for p in T.all_params]
    try:
        B.load_state_dict(A.state_dict())
        accepted = True
    except (ValueError, RuntimeError, KeyError):
        accepted = False
    ctx.check(not accepted, f"the state of another problem was accepted ({what})")
    ctx.check(all(torch.equal(a, b) for a, b in zip(params, T.all_params)), "refusing a state changed the model")
    zoo.expect(ctx, B @ M, want, "product after a refused state", **TOL)


def inverse(ctx):
    """Checkpoints of the inverse with each damping rule, cached or not."""
    from curvlinops import KFACInverseLinearOperator

    damp = ctx.choose("damping", list(DAMPINGS), free=True)
    cache = ctx.choose("cache", [True, False], free=True)
    when = ctx.choose("saved", ["after product", "fresh"], free=True)
    into = ctx.choose("into", ["from_state_dict", "other damping", "computed operator", "itself"], free=True)
    via = ctx.choose("via", ["memory", "file"], free=True)
    sep = ctx.choose("separate", [True, False], free=True)
    arch = ctx.choose("arch", ["mlp", "conv", "strided", "chlast"])
    loss = ctx.choose("loss", LOSSES)
    if damp == "heuristic-zero" and sep and False:
        ctx.skip()
    P, Q = prob(arch, loss, "mean"), prob(arch, loss, "mean", pseed=6)
    cfg = dict(fisher="type-2", approx="expand", separate=sep)
    ref = inverse_dense(P, refs.kfac_factors(P, "type-2", "expand", sep), **DAMPINGS[damp])
    M = zoo.operand(P.D, 2)
    A = inv_op(make(P, cfg), cache=cache, **DAMPINGS[damp])
    if when == "after product":
        A @ M
    state = A.state_dict()
    if via == "file":
        state = through_file(state)
    if into == "from_state_dict":
        B = KFACInverseLinearOperator.from_state_dict(state, make(Q, cfg))
    elif into == "other damping":
        B = inv_op(make(Q, cfg), damping=0.77, cache=not cache)
        B.load_state_dict(state)
    elif into == "computed operator":
        B = inv_op(make(Q, cfg), damping=0.77)
        B @ M
        B.load_state_dict(state)
    else:
        B = A
        B.load_state_dict(state)
    same_state(ctx, B, state, "KFAC inverse")
    zoo.expect(ctx, B @ M, ref @ M, "restored inverse", **TOL)
    zoo.expect(ctx, A @ M, ref @ M, "original inverse", **TOL)
    zoo.expect(ctx, B @ M, ref @ M, "restored inverse again", **TOL)


def inverse_alias(ctx):
    """Histories over two inverses that exchange states."""
    depth = 4 if ctx.tier == "quick" else 5
    P = prob("mlp", "mse", "mean")
    factors = refs.kfac_factors(P, "type-2", "expand", True)
    cfg = CFGS["type-2"]
    M = zoo.operand(P.D, 2)
    model = {"A": "tuple", "B": "exact"}
    refd = {d: inverse_dense(P, factors, **DAMPINGS[d]) for d in ("tuple", "exact")}
    ops = {k: inv_op(make(P, cfg), **DAMPINGS[d]) for k, d in model.items()}
    states = []
    for step in range(depth):
        what = ctx.choose(f"op{step}", ["A@", "B@", "save A", "save B", "load A", "load B", "load A first",
                                        "load B first"], free=True)
        who = "A" if "A" in what else "B"
        if what.endswith("@"):
            zoo.expect(ctx, ops[who] @ M, refd[model[who]] @ M, f"product with {who}", **TOL)
        elif what.startswith("save"):
            states.append((ops[who].state_dict(), model[who]))
        else:
            if not states:
                ctx.skip()
            st, d = states[0 if "first" in what else -1]
            ops[who].load_state_dict(st)
            model[who] = d
    for who in "AB":
        zoo.expect(ctx, ops[who] @ M, refd[model[who]] @ M, f"finally: product with {who}", **TOL)
    for st, d in states:
        C = inv_op(make(P, cfg), damping=0.9)
        C.load_state_dict(st)
        zoo.expect(ctx, C @ M, refd[d] @ M, "finally: state restored", **TOL)


def option_prob(name, seed=0, pseed=None):
    """A problem whose loss has options beyond its reduction."""
    base = {"smoothing": "ce", "smoothing 2": "ce", "ce": "ce", "pos_weight": "bce", "pos_weight 2": "bce", "bce": "bce"}
    P = prob("mlp", base[name], "mean", seed=seed, pseed=pseed)
    if name.startswith("smoothing"):
        P.loss_func = nn.CrossEntropyLoss(label_smoothing=0.15 if name == "smoothing" else 0.3)
    elif name.startswith("pos_weight"):
        P.loss_func = nn.BCEWithLogitsLoss(pos_weight=torch.tensor(
            [0.4, 2.0] if name == "pos_weight" else [0.4, 1.0], dtype=P.dtype))
    P.key = (name,) + P.key
    return P


def loss_options(ctx):
    """Options of the loss belong to the state: restored with it, and a state with others is refused."""
    names = ["smoothing", "pos_weight", "ce", "bce", "smoothing 2", "pos_weight 2"]
    source = ctx.choose("source", names, free=True)
    target = ctx.choose("target", ["from_state_dict"] + names, free=True)
    when = ctx.choose("saved", ["after product", "fresh"], free=True)
    via = ctx.choose("via", ["memory", "file"], free=True)
    approx = ctx.choose("approx", ["expand", "reduce"], free=True)
    from curvlinops import KFACLinearOperator

    cfg = dict(fisher="empirical", approx=approx, separate=True)
    P = option_prob(source)
    Q = option_prob(source if target == "from_state_dict" else target, pseed=9)
    A = make(P, cfg)
    M = zoo.operand(P.D, 2)
    want = make(P, cfg) @ M
    if when == "after product":
        A @ M
    state = A.state_dict()
    if via == "file":
        state = through_file(state)
    if target == "from_state_dict":
        B = KFACLinearOperator.from_state_dict(state, Q.model, Q.params, Q.data, check_deterministic=False)
    else:
        B = make(Q, cfg)
        own = make(Q, cfg) @ M
        try:
            B.load_state_dict(state)
            accepted = True
        except (ValueError, RuntimeError):
            accepted = False
        ctx.check(accepted == (target == source),
                  f"a state with loss options {source!r} was {'accepted' if accepted else 'refused'} by an operator with {target!r}")
        if not accepted:
            zoo.expect(ctx, B @ M, own, "product after a refused state", **TOL)
            return
    same_state(ctx, B, state, "KFAC")
    zoo.expect(ctx, B @ M, want, "restored product", **TOL)


ASSUMPTIONS = ["float64; relative tolerance 1e-7",
               "a state shares the model's live parameter tensors unless it went through a file (PyTorch's "
               "convention): parameters are not changed in place between saving and loading",
               "a state without computed factors is only distinguishable by loss, model and shape"]


def scenarios(tier):
    b = 0 if tier == "quick" else 1
    return [
        ("roundtrips", roundtrip, 1 if tier == "quick" else 2,
         "full product configuration x moment of saving x kind of target x medium; deviations over "
         "architecture, loss, reduction, parameter selection"),
        ("operator histories", alias, b, "all sequences of length 4 (5) of products, saves, loads over two operators"),
        ("mismatches", mismatch, 1, "every kind of foreign state x computed or not x KFAC/inverse x loss"),
        ("loss options", loss_options, 0, "full product loss options of the saved operator x of the target (or rebuilt) x "
         "computed or not x medium x approximation"),
        ("inverse roundtrips", inverse, b, "full product damping rule x cache x moment x target x medium x bias handling"),
        ("inverse histories", inverse_alias, b, "all sequences of length 4 (5) of products, saves, loads over two inverses"),
    ]
