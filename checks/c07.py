"""C07: Monte-Carlo KFAC over every outcome of its label draws, and seeding histories."""

from checks.c06 import build, kfac_problem, outside
from checks.common import *
from mc import draws, refs, zoo


def all_draws(ctx):
    loss = ctx.choose("loss", LOSSES, free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    mc = ctx.choose("mc_samples", [1, 2], free=True)
    C = ctx.choose("C", [2, 1, 3], free=True)
    sizes = ctx.choose("batches", [[1, 1], [2], [2, 1], [1], [1, 2]], free=True)
    approx = ctx.choose("approx", ["expand", "reduce"], free=True)
    arch = ctx.choose("arch", ["mlp", "seq", "convout", "conv-pad1", "nobias"])
    separate = ctx.choose("separate", [True, False])
    N = sum(sizes)
    terms = N * (2 if arch in ("seq", "convout") else 1)
    leaves = (C if loss == "ce" else 2**C) ** (terms * mc)
    if leaves > (36 if ctx.tier == "quick" else 5000):
        ctx.skip()
    n = zoo.num_params(arch)
    sel = ctx.choose("params", ["all", "reversed", "last"])
    sel = {"all": list(range(n)), "reversed": list(range(n))[::-1], "last": [n - 1]}[sel]
    P = Problem(arch, loss, red, N=N, C=C, sizes=sizes, params=sel)
    M = zoo.operand(P.D, 2)
    dist = draws.result_distribution(
        ctx, lambda: build(P, "mc", approx, separate, mc_samples=mc) @ M)
    if dist is None:
        ctx.skip()
    ctx.check(len(dist) > 1 or (loss == "ce" and C == 1), "no label was drawn")
    if approx == "expand" or refs.num_terms(P) == 1:
        # (the reduce approximation of several positions sums their independent labels)
        exact = refs.kfac_dense(P, refs.kfac_factors(P, "type-2", approx, separate)) @ M
        zoo.expect(ctx, draws.mean(dist), exact, "expectation over all draws", rtol=1e-6)
    o, _ = refs.term_outputs(P)
    ref = []
    for w, Gs in draws.sample_space(loss, o, mc):
        K = refs.kfac_dense(P, refs.kfac_factors(
            P, "mc", approx, separate, samples=Gs))
        ref.append((w, K @ M))
    ctx.check(draws.same_distribution(dist, ref),
              "the law of the result differs from independent label draws")


def saturated(ctx):
    """Predictions that are almost certain: the rare outcomes carry the whole matrix."""
    loss = ctx.choose("loss", ["bce", "ce"], free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    logit = ctx.choose("logit", [4.0, 6.0, 8.0], free=True)
    arch = ctx.choose("arch", ["linear", "seq"], free=True)
    C = ctx.choose("C", [2, 1, 3], free=True)
    sizes = ctx.choose("batches", [[1], [1, 1], [2]], free=True)
    approx = ctx.choose("approx", ["expand", "reduce"], free=True)
    terms = sum(sizes) * (2 if arch == "seq" else 1)
    if (C if loss == "ce" else 2**C) ** terms > 36 or (loss == "ce" and C == 1) or (arch == "seq" and approx == "reduce"):
        ctx.skip()
    P = Problem(arch, loss, red, N=sum(sizes), C=C, sizes=sizes)
    with torch.no_grad():  # the last bias dominates the predictions
        P.all_params[-1].copy_(logit * torch.tensor([1.0, -1.0, -1.2], dtype=P.dtype)[:C])
    P.key += ("saturated", logit)
    M = zoo.operand(P.D, 1)
    dist = draws.result_distribution(ctx, lambda: build(P, "mc", approx, True) @ M)
    if dist is None:
        ctx.skip()
    exact = refs.kfac_dense(P, refs.kfac_factors(P, "type-2", approx, True)) @ M
    zoo.expect(ctx, draws.mean(dist), exact, "expectation over all draws", rtol=1e-5, atol=0.0)


def many_outputs(ctx):
    """Many classes or outputs: every label, also the least likely one, is drawn with its probability."""
    loss = ctx.choose("loss", ["ce", "bce", "mse"], free=True)
    C = ctx.choose("C", [12, 34, 130] if loss == "ce" else [5, 6], free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    logits = ctx.choose("logits", ["random", "equal", "one likely class", "slope"], free=True)
    sizes = ctx.choose("batches", [[1], [1, 1]], free=True)
    if C ** sum(sizes) > 200 or (loss != "ce" and sum(sizes) > 1):
        ctx.skip()
    P = Problem("linear", loss, red, N=sum(sizes), C=C, sizes=sizes)
    with torch.no_grad():
        if logits != "random":
            P.all_params[0].mul_(1e-2)
            P.all_params[-1].copy_({"equal": torch.zeros(C), "one likely class": 3.0 * torch.eye(C)[C // 2],
                                    "slope": torch.linspace(3.0, -3.0, C)}[logits].to(P.dtype))
    P.key += ("logits", logits)
    M = zoo.operand(P.D, 1)
    dist = draws.result_distribution(ctx, lambda: build(P, "mc", "expand", True) @ M)
    if dist is None:
        ctx.skip()
    if loss == "ce":
        ctx.check(len(dist) == C ** P.N, f"{len(dist)} different label outcomes of {C ** P.N}")
    zoo.expect(ctx, draws.mean(dist), refs.kfac_dense(P, refs.kfac_factors(P, "type-2", "expand", True)) @ M, "expectation over all draws", rtol=1e-7)


def tasks(ctx):
    """Mini-batches that use some of the parameters only, or none of them."""
    P = choose_heads(ctx, mixed=False)
    separate = ctx.choose("separate", [True, False])
    if (P.C if P.lossname == "ce" else 2**P.C) ** P.N > 64:
        ctx.skip()
    M = zoo.operand(P.D, 1)
    dist = draws.result_distribution(ctx, lambda: build(P, "mc", "expand", separate) @ M)
    if dist is None:
        ctx.skip()
    zoo.expect(ctx, draws.mean(dist), refs.kfac_dense(P, refs.kfac_factors(P, "type-2", "expand", separate)) @ M, "expectation over all draws", rtol=1e-6)


def single_precision(ctx):
    """Every label draw of a problem in single precision."""
    loss = ctx.choose("loss", LOSSES, free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    dt = ctx.choose("dtype", [torch.float32, torch.bfloat16], free=True)
    arch = ctx.choose("arch", ["linear", "seq", "mlp"], free=True)
    C = ctx.choose("C", [2, 1], free=True)
    sizes = ctx.choose("batches", [[1, 1], [2], [1]], free=True)
    if C ** (sum(sizes) * (2 if arch == "seq" else 1)) > 36 or (loss == "ce" and C == 1):
        ctx.skip()
    P = Problem(arch, loss, red, N=sum(sizes), C=C, sizes=sizes, dtype=dt)
    M = zoo.operand(P.D, 2)
    dist = draws.result_distribution(ctx, lambda: build(P, "mc", "expand", True) @ M.to(dt))
    if dist is None:
        ctx.skip()
    ctx.check(all(v.dtype == dt for _, v in dist), "data type of the product")
    want = refs.kfac_dense(P, refs.kfac_factors(P, "type-2", "expand", True))
    scale = float(want.abs().max() * M.abs().max())
    tol = zoo.LOOSE[dt]
    zoo.expect(ctx, draws.mean([(w, v.double()) for w, v in dist]), want @ M.to(dt).double(), "expectation over all draws",
               rtol=tol, atol=tol * scale)
    seeded = [build(P, "mc", "expand", True, seed=3) @ M.to(dt) for _ in range(2)]
    ctx.check(torch.equal(*seeded), "equal seeds, different products")


def seeds(ctx):
    """Histories over operators with real generators."""
    other = ctx.choose("history", ["again", "global-rng", "fresh", "twin", "seed", "check", "psd",
                                   "adjoint", "inverse", "batching"], free=True)
    approx = ctx.choose("approx", ["expand", "reduce"])
    separate = ctx.choose("separate", [True, False])
    mc = ctx.choose("mc_samples", [1, 3])
    seed = ctx.choose("seed", [2147483647, 0, 11])
    P = kfac_problem(ctx, ["mlp", "seq", "convout", "conv", "mixed", "deep", "branch", "strided", "chlast"])
    if outside(P, approx):
        ctx.skip()

    def make(seed=seed, **kw):
        return build(P, "mc", approx, separate, mc_samples=mc, seed=seed, **kw)

    op = make()
    M = zoo.operand(P.D, 2)
    torch.manual_seed(123)
    state = torch.get_rng_state()
    A = op @ M
    ctx.check(torch.equal(state, torch.get_rng_state()), "the global random state was advanced")
    alt = seed + 1 if seed < 100 else seed - 1
    if other == "again":
        zoo.expect(ctx, torch.stack([op @ M[:, 0], op @ M[:, 1]], 1), A, "second product")
    elif other == "global-rng":
        torch.manual_seed(9)
        zoo.expect(ctx, op @ M, A, "product after moving the global random state")
        zoo.expect(ctx, make() @ M, A, "new operator after moving the global random state")
    elif other == "fresh":
        zoo.expect(ctx, make() @ M, A, "new operator with the same seed")
    elif other == "twin":
        b = make(alt)
        B = b @ M
        zoo.expect(ctx, op @ M, A, "product interleaved with another operator")
        zoo.expect(ctx, b @ M, B, "other operator's second product")
    elif other == "seed":
        if P.lossname == "mse":
            ctx.check(not zoo.close(make(alt) @ M, A), "the seed has no effect")
    elif other == "check":
        zoo.expect(ctx, make(check_deterministic=True) @ M, A, "operator with determinism check")
    elif other == "psd":
        K = op @ torch.eye(P.D, dtype=P.dtype)
        zoo.expect(ctx, K, K.T, "symmetry")
        ctx.check(float(torch.linalg.eigvalsh((K + K.T) / 2).min()) > -1e-9 * float(K.abs().max() + 1),
                  "negative curvature")
    elif other == "adjoint":
        zoo.expect(ctx, op.adjoint() @ M, A, "adjoint")
    elif other == "inverse":
        from curvlinops import KFACInverseLinearOperator

        KFACInverseLinearOperator(make(), damping=(0.3, 0.3)) @ M
        zoo.expect(ctx, op @ M, A, "product after another operator was inverted")
    elif other == "batching":
        K = torch.eye(P.D, dtype=P.dtype)
        dense = op @ K
        one = Problem(P.arch, P.lossname, P.reduction, N=P.N, C=P.C, sizes=[P.N], params=P.select,
                      seed=P.seed)
        if len(P.sizes) == 1:
            zoo.expect(ctx, build(one, "mc", approx, separate, mc_samples=mc, seed=seed) @ K, dense,
                       "the same problem rebuilt")


def many(ctx):
    """Many Monte-Carlo samples: every single one counts."""
    loss = ctx.choose("loss", LOSSES, free=True)
    S = ctx.choose("mc_samples", [40, 70, 3] if ctx.tier == "quick" else [70, 3, 130, 300], free=True)
    approx = ctx.choose("approx", ["expand", "reduce"])
    red = ctx.choose("reduction", REDUCTIONS)
    sizes = ctx.choose("batches", [[1, 1], [2]])
    C = 2 if loss == "ce" else 1
    P = Problem("linear", loss, red, N=2, C=C, sizes=sizes)
    M = torch.eye(P.D, dtype=P.dtype)
    draws.many_samples(
        ctx, lambda: build(P, "mc", approx, True, mc_samples=S) @ M,
        lambda G: refs.kfac_dense(P, refs.kfac_factors(P, "mc", approx, True, samples=[G])), (approx,), P, S)


ASSUMPTIONS = [
    "Gaussian draws are enumerated through the two-point law with equal first and second moments",
    "float64; relative tolerance 1e-8 (laws: 1e-6)",
]


def scenarios(tier):
    return [
        ("all draws", all_draws, 1 if tier == "quick" else 2,
         "every outcome of every label draw: loss x reduction x mc_samples x C x batch partition "
         "x approximation (architecture, bias handling, parameters as deviations) while the "
         "outcome tree has at most 36 (thorough: 5000) leaves"),
        ("saturated predictions", saturated, None,
         "loss x reduction x how certain the predictions are x sequence or not x C x batches x approximation"),
        ("many outputs", many_outputs, None,
         "every outcome of every label draw with up to 130 classes or 6 outputs: loss x number x reduction x kind of "
         "logits x batches"),
        ("tasks", tasks, None, "every outcome of every label draw: " + HEADS_TEXT + " x separate"),
        ("single precision", single_precision, None,
         "every outcome of every label draw in float32 and bfloat16: loss x reduction x architecture x C x batches"),
        ("many samples", many, 0 if tier == "quick" else 1,
         "up to 70 (thorough 300) Monte-Carlo samples: the effect of every single draw"),
        ("seeding histories", seeds, 2 if tier == "quick" else 3,
         "all histories over operators sharing seeds, deviations over configuration"),
    ]
