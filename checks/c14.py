"""C14: an exception in user code, at any point, reaches the caller and leaves no trace."""

from checks.common import *
from checks.ops import *
from mc import refs, zoo
from mc.world import Snapshot


class Boom(NotImplementedError, ValueError, TypeError, KeyError, IndexError, AttributeError, ZeroDivisionError,
           AssertionError, EOFError):
    """The user's exception: no handler for any particular class of errors may swallow or translate it."""


class Plan:
    """Raises at the k-th event of one site; counts all events."""

    def __init__(self):
        self.arm(None, 0)

    def arm(self, site, k, exc=Boom):
        self.site, self.k, self.exc = site, k, exc
        self.seen = {}

    def hit(self, site):
        self.seen[site] = self.seen.get(site, 0) + 1
        if site == self.site and self.seen[site] == self.k:
            self.raised = self.exc(f"{site} {self.k}")
            raise self.raised


class Probe(nn.Module):
    """Identity layer: fault points inside the forward and backward pass."""

    def __init__(self, plan):
        super().__init__()
        self.plan = plan

    def forward(self, x):
        self.plan.hit("layer")
        x = x * 1.0
        if x.requires_grad:
            x.register_hook(lambda g: self.plan.hit("backward"))
        return x


class Model(nn.Sequential):
    def __init__(self, plan, conv):
        first = nn.Sequential(nn.Flatten(), nn.Linear(3, 2)) if not conv else nn.Sequential(
            nn.Conv2d(2, 2, 2), nn.Flatten(), nn.Linear(8, 2))
        super().__init__(first, nn.Tanh(), Probe(plan), nn.Linear(2, 2))
        self.plan = plan

    def forward(self, x):
        self.plan.hit("model")
        z = super().forward(x)
        self.plan.hit("after")
        return z


class Data(list):
    """A list of mini-batches that can fail while being traversed."""

    plan = None

    def __iter__(self):
        self.plan.hit("open")
        for i in range(len(self)):
            self.plan.hit("batch")
            yield self[i]
        self.plan.hit("end")


def faulty_loss(cls, plan):
    """A loss of the same type (exactly), failing through its own hook."""
    class_ = cls

    def make(reduction):
        loss = class_(reduction=reduction)
        loss.register_forward_pre_hook(lambda m, i: plan.hit("loss"))
        return loss

    return make


SITES = ["batch", "model", "loss", "backward", "layer", "after", "open", "end", "size"]


def problem(plan, conv, loss, red, sizes):
    arch = "conv" if conv else "linear"
    P = Problem(arch, loss, red, N=sum(sizes), C=2, sizes=sizes)
    P.model = zoo.init(Model(plan, conv))
    P.all_params = P.params = list(P.model.parameters())
    P.index = list(range(sum(p.numel() for p in P.params)))
    P.D = len(P.index)
    P.loss_func = faulty_loss(type(P.loss_func), plan)(red)
    d = Data(P.data)
    d.plan = plan
    P.data = d
    P.key = ("fault", conv, loss, red, tuple(sizes))
    return P


def make(kind, P, plan, **kw):
    if kind == "ACT":
        from curvlinops.experimental import ActivationHessianLinearOperator

        return ActivationHessianLinearOperator(P.model, P.loss_func, ("0", "output", 0), P.data,
                                               check_deterministic=kw.get("check_deterministic", False))
    return make_op(kind, P, batch_size_fn=lambda X: (plan.hit("size"), X.shape[0])[1], **kw)


OPERATIONS = ["mat", "construct", "construct+check", "list", "adjoint", "scipy", "gradient", "trace", "state", "inverse"]


def perform(kind, what, op, P, plan, M):
    """Run one operation; returns its observable result."""
    if what.startswith("construct"):
        new = make(kind, P, plan, check_deterministic=what.endswith("check"))
        return new @ M
    if what == "mat":
        return op @ M
    if what == "list":
        return zoo.from_list(op @ zoo.to_list(M, spaces(kind, P)[0]))
    if what == "adjoint":
        return op.adjoint() @ zoo.operand(op.shape[0], 2)
    if what == "scipy":
        return torch.from_numpy(op.to_scipy() @ M.numpy())
    if what == "gradient":
        g, l = op.gradient_and_loss()
        return torch.cat([zoo.flat(g), l.reshape(1)])
    if what == "trace":
        return torch.stack([torch.as_tensor(op.trace), torch.as_tensor(op.frobenius_norm)])
    if what == "inverse":
        from curvlinops import KFACInverseLinearOperator

        return KFACInverseLinearOperator(op, damping=0.2) @ M
    B = make(kind, P, plan)
    B.load_state_dict(op.state_dict())
    return B @ M


def applicable(kind, what):
    if what == "gradient":
        return kind not in NO_LOSS + INVS + ["ACT"]
    if what in ("trace", "inverse"):
        return kind in KFACS
    if what == "state":
        return kind in KFACS + INVS
    return True


_undisturbed = {}


def undisturbed(kind, what, warm, key):
    """Results without faults, and how many events every site has, for one configuration."""
    full = (kind, what, warm) + key
    if full not in _undisturbed:
        plan = Plan()
        P = problem(plan, *key)
        M = zoo.operand(make(kind, P, plan).shape[1], 2)
        want = {w: perform(kind, w, make(kind, P, plan), P, plan, M) for w in ("mat", what)}
        probe = make(kind, P, plan)
        if warm:
            probe @ M
        plan.arm(None, 0)
        perform(kind, what, probe, P, plan, M)
        _undisturbed[full] = want, dict(plan.seen)
    return _undisturbed[full]


def faults(kinds, operations, rounds):
    def scenario(ctx):
        kind = ctx.choose("kind", kinds, free=True)
        what = ctx.choose("operation", operations, free=True)
        if not applicable(kind, what):
            ctx.skip()
        warm = ctx.choose("used before", [False, True])
        conv = ctx.choose("model", ["linear", "conv"]) == "conv"
        loss = ctx.choose("loss", LOSSES)
        red = ctx.choose("reduction", REDUCTIONS)
        sizes = [3] if kind == "ACT" else ctx.choose("batches", [[2, 1], [1, 1, 1]])
        exc = ctx.choose("exception", [Boom, KeyboardInterrupt])
        if kind == "ACT" and conv:
            ctx.skip()
        want, events = undisturbed(kind, what, warm, (conv, loss, red, tuple(sizes)))
        plan = Plan()
        P = problem(plan, conv, loss, red, tuple(sizes))
        op = make(kind, P, plan)
        M = zoo.operand(op.shape[1], 2)
        if warm:
            op @ M
        snap = Snapshot(P, rng=what != "construct+check")
        for r in range(rounds):
            site = ctx.choose(f"site{r}", [s for s in SITES if events.get(s)] or ["none"], free=True)
            if site == "none":
                break
            k = ctx.choose(f"event{r}", list(range(1, events[site] + 1)), free=r == 0)
            plan.arm(site, k, exc)
            raised = None
            try:
                perform(kind, what, op, P, plan, M)
            except BaseException as e:  # noqa: B902
                raised = e
            fired = plan.seen.get(site, 0) >= k
            plan.arm(None, 0)
            if fired:
                ctx.check(raised is not None, f"the exception raised at {site} {k} was swallowed")
                ctx.check(isinstance(raised, exc),
                          f"{type(raised).__name__} instead of the user's exception: {raised}")
                ctx.check(raised is plan.raised, "another exception object than the user's")
            else:
                ctx.check(raised is None, f"unexpected {raised!r}")
            d = snap.difference()
            ctx.check(d is None, f"after the failure: {d} changed")
            again = what if ctx.choose(f"then{r}", ["same", "product"]) == "same" else "mat"
            zoo.expect(ctx, perform(kind, again, op, P, plan, M), want[again], f"{again} after the failure",
                       rtol=1e-7, atol=1e-9)
        zoo.expect(ctx, op @ M, want["mat"], "product at the end", rtol=1e-7, atol=1e-9)
        d = snap.difference()
        ctx.check(d is None, f"at the end: {d} changed")

    return scenario


def correctness(ctx):
    """The undisturbed results used above agree with the dense references."""
    kind = ctx.choose("kind", [k for k in ALL if k not in ("MC", "KFAC-mc", "ACT")], free=True)
    conv = ctx.choose("model", [False, True], free=True)
    loss = ctx.choose("loss", LOSSES, free=True)
    plan = Plan()
    P = problem(plan, conv, loss, "mean", [2, 1])
    M = zoo.operand(make(kind, P, plan).shape[1], 2)
    zoo.expect(ctx, make(kind, P, plan) @ M, reference(kind, P) @ M, "product", rtol=1e-7, atol=1e-9)


ASSUMPTIONS = ["faults are exceptions raised by the data container, the model, one of its layers, the loss, a "
               "backward hook, or batch_size_fn (every event of each site)",
               "one fault (thorough: two successive faults) per history"]


MAIN = ["mat", "construct", "construct+check", "state", "inverse", "gradient", "trace"]


def scenarios(tier):
    if tier == "quick":
        return [
            ("faults", faults(ALL, OPERATIONS, 1), 0,
             "operator x operation x fault site x every event index"),
            ("deviations", faults(["KFAC", "KFAC-joint", "KINV", "GGN", "MC", "J"], ["mat", "trace", "inverse"], 1), 1,
             "operator x operation x fault site x every event index; deviations over model, loss, reduction, "
             "batches, exception class, warm operators, follow-up"),
            ("undisturbed", correctness, None, "operator x model x loss against dense references"),
        ]
    return [
        ("faults", faults(ALL, OPERATIONS, 1), 2,
         "operator x operation x fault site x every event index; deviations over model, loss, reduction, "
         "batches, exception class, warm operators, follow-up"),
        ("two faults", faults(ALL, MAIN, 2), 1, "two successive faults in the same operator"),
        ("undisturbed", correctness, None, "operator x model x loss against dense references"),
    ]
