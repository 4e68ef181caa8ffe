"""C05: the Monte-Carlo Fisher over every outcome of its label draws."""

from checks.common import *
from mc import draws, refs, zoo


def small_problem(ctx, free):
    loss = ctx.choose("loss", LOSSES, free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    mc = ctx.choose("mc_samples", [1, 2], free=True)
    C = ctx.choose("C", [2, 1, 3], free=True)
    sizes = ctx.choose("batches", [[1, 1], [2], [2, 1], [1, 2], [1], [1, 1, 1]], free=free)
    arch = ctx.choose("arch", ["linear", "seq", "convout", "func"], free=free)
    terms = sum(sizes) * (2 if arch in ("seq", "convout") else 1)
    leaves = (C if loss == "ce" else 2**C) ** (terms * mc)
    if leaves > (36 if ctx.tier == "quick" else 70000):
        ctx.skip()
    P = Problem(arch, loss, red, N=sum(sizes), C=C, sizes=sizes)
    return P, mc


def all_draws(ctx):
    from curvlinops import FisherMCLinearOperator

    P, mc = small_problem(ctx, free=True)
    sel = ctx.choose("params", ["all", "reversed"])
    if sel == "reversed":
        P = Problem(P.arch, P.lossname, P.reduction, N=P.N, C=P.C, sizes=P.sizes,
                    params=list(range(len(P.all_params)))[::-1])
    M = zoo.operand(P.D, 1)
    op = FisherMCLinearOperator(*P.args, check_deterministic=False, mc_samples=mc)
    dist = draws.result_distribution(ctx, lambda: op @ M)
    if dist is None:
        ctx.skip()
    ctx.check(len(dist) > 1 or (P.lossname == "ce" and P.C == 1), "no label was drawn")
    # unbiased: the average over all outcomes is the exact Fisher
    zoo.expect(ctx, draws.mean(dist), refs.fisher(P) @ M, "expectation over all draws", rtol=1e-6)
    # each outcome: scaled sum of outer products of would-be gradients of independent labels
    o, _ = refs.term_outputs(P)
    J = refs.term_jacobians(P).reshape(o.shape[0], P.C, -1)
    ref = []
    for w, Gs in draws.sample_space(P.lossname, o, mc):
        g = torch.cat([torch.einsum("kcd,kc->kd", J, G) for G in Gs])
        ref.append((w, refs.scale(P) / mc * (g.T @ (g @ M))))
    ctx.check(draws.same_distribution(dist, ref),
              "the law of the result differs from independent label draws")


def saturated(ctx):
    """Predictions that are almost certain: the rare outcomes carry the whole matrix."""
    from curvlinops import FisherMCLinearOperator

    loss = ctx.choose("loss", ["bce", "ce"], free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    logit = ctx.choose("logit", [4.0, 6.0, 8.0], free=True)
    arch = ctx.choose("arch", ["linear", "seq"], free=True)
    C = ctx.choose("C", [2, 1, 3], free=True)
    sizes = ctx.choose("batches", [[1], [1, 1], [2]], free=True)
    terms = sum(sizes) * (2 if arch == "seq" else 1)
    if (C if loss == "ce" else 2**C) ** terms > 36 or (loss == "ce" and C == 1):
        ctx.skip()
    P = Problem(arch, loss, red, N=sum(sizes), C=C, sizes=sizes)
    with torch.no_grad():  # the last bias dominates the predictions
        P.all_params[-1].copy_(logit * torch.tensor([1.0, -1.0, -1.2], dtype=P.dtype)[:C])
    P.key += ("saturated", logit)
    M = zoo.operand(P.D, 1)
    op = FisherMCLinearOperator(*P.args, check_deterministic=False)
    dist = draws.result_distribution(ctx, lambda: op @ M)
    if dist is None:
        ctx.skip()
    zoo.expect(ctx, draws.mean(dist), refs.fisher(P) @ M, "expectation over all draws", rtol=1e-5, atol=0.0)


def many_outputs(ctx):
    """Many classes or outputs: every label, also the least likely one, is drawn with its probability."""
    from curvlinops import FisherMCLinearOperator

    loss = ctx.choose("loss", ["ce", "bce", "mse"], free=True)
    C = ctx.choose("C", [12, 34, 130] if loss == "ce" else [5, 6], free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    logits = ctx.choose("logits", ["random", "equal", "one likely class", "slope"], free=True)
    sizes = ctx.choose("batches", [[1], [1, 1]], free=True)
    if C ** sum(sizes) > 200 or (loss != "ce" and sum(sizes) > 1):
        ctx.skip()
    P = Problem("linear", loss, red, N=sum(sizes), C=C, sizes=sizes)
    with torch.no_grad():
        if logits != "random":
            P.all_params[0].mul_(1e-2)
            P.all_params[-1].copy_({"equal": torch.zeros(C), "one likely class": 3.0 * torch.eye(C)[C // 2],
                                    "slope": torch.linspace(3.0, -3.0, C)}[logits].to(P.dtype))
    P.key += ("logits", logits)
    M = zoo.operand(P.D, 1)
    dist = draws.result_distribution(ctx, lambda: FisherMCLinearOperator(*P.args, check_deterministic=False) @ M)
    if dist is None:
        ctx.skip()
    if loss == "ce":
        ctx.check(len(dist) == C ** P.N, f"{len(dist)} different label outcomes of {C ** P.N}")
    zoo.expect(ctx, draws.mean(dist), refs.fisher(P) @ M, "expectation over all draws", rtol=1e-7)


def tasks(ctx):
    """Mini-batches that use some of the parameters only, or none of them."""
    from curvlinops import FisherMCLinearOperator

    P = choose_heads(ctx)
    if (P.C if P.lossname == "ce" else 2**P.C) ** P.N > 64:
        ctx.skip()
    M = zoo.operand(P.D, 1)
    dist = draws.result_distribution(ctx, lambda: FisherMCLinearOperator(*P.args, check_deterministic=False) @ M)
    if dist is None:
        ctx.skip()
    zoo.expect(ctx, draws.mean(dist), refs.fisher(P) @ M, "expectation over all draws", rtol=1e-6)


def single_precision(ctx):
    """Every label draw of a problem in single precision."""
    from curvlinops import FisherMCLinearOperator

    loss = ctx.choose("loss", LOSSES, free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    dt = ctx.choose("dtype", [torch.float32, torch.bfloat16], free=True)
    arch = ctx.choose("arch", ["linear", "seq", "mlp"], free=True)
    C = ctx.choose("C", [2, 1], free=True)
    sizes = ctx.choose("batches", [[1, 1], [2], [1]], free=True)
    if C ** (sum(sizes) * (2 if arch == "seq" else 1)) > 36 or (loss == "ce" and C == 1):
        ctx.skip()
    P = Problem(arch, loss, red, N=sum(sizes), C=C, sizes=sizes, dtype=dt)
    M = zoo.operand(P.D, 2)
    dist = draws.result_distribution(ctx, lambda: FisherMCLinearOperator(*P.args, check_deterministic=False) @ M.to(dt))
    if dist is None:
        ctx.skip()
    ctx.check(all(v.dtype == dt for _, v in dist), "data type of the product")
    want = refs.fisher(P)
    scale = float(want.abs().max() * M.abs().max())
    tol = zoo.LOOSE[dt]
    zoo.expect(ctx, draws.mean([(w, v.double()) for w, v in dist]), want @ M.to(dt).double(), "expectation over all draws",
               rtol=tol, atol=tol * scale)
    seeded = [FisherMCLinearOperator(*P.args, check_deterministic=False, seed=3) @ M.to(dt) for _ in range(2)]
    ctx.check(torch.equal(*seeded), "equal seeds, different products")


HISTORIES = ["again", "columns", "columns-list", "global-rng", "fresh", "twin", "linear",
             "symmetric", "psd", "after-construction-check", "seed"]


def seeds(ctx, histories=HISTORIES):
    """Histories over one or two operators with real generators."""
    from curvlinops import FisherMCLinearOperator

    loss = ctx.choose("loss", LOSSES, free=True)
    arch = ctx.choose("arch", ["mlp", "seq", "convout", "tied", "strided", "chlast"], free=False)
    red = ctx.choose("reduction", REDUCTIONS)
    sizes = ctx.choose("batches", [[2, 1, 1], [4], [1, 3], [1, 1, 1, 1], [2, 3, 2]])
    C = ctx.choose("C", [2, 1, 3])
    mc = ctx.choose("mc_samples", [1, 2, 5])
    seed = ctx.choose("seed", [2147483647, 0, 7])
    other = ctx.choose("history", histories, free=True)
    P = Problem(arch, loss, red, N=sum(sizes), C=C, sizes=sizes)

    def make(seed=seed, det=False):
        return FisherMCLinearOperator(*P.args, check_deterministic=det, mc_samples=mc, seed=seed)

    op = make()
    M = zoo.operand(P.D, 2)
    torch.manual_seed(123)
    state = torch.get_rng_state()
    A = op @ M
    ctx.check(torch.equal(state, torch.get_rng_state()), "the global random state was advanced")
    if other == "again":
        op @ M[:, 0]
        zoo.expect(ctx, op @ M, A, "second product")
    elif other == "columns":
        zoo.expect(ctx, torch.stack([op @ M[:, 0], op @ M[:, 1]], 1), A, "columns separately")
    elif other == "many columns":
        W = zoo.operand(P.D, 130, seed=5)
        W[:, [0, 64, 129]] = M[:, :1]
        B = op @ W
        zoo.expect(ctx, B[:, [0, 64, 129]], A[:, :1].expand(-1, 3), "columns of a wide matrix")
        zoo.expect(ctx, B, (op @ torch.eye(P.D, dtype=P.dtype)) @ W, "wide matrix")
    elif other == "columns-list":
        L = op @ zoo.to_list(M, shapes_of(P.params))
        zoo.expect(ctx, zoo.from_list(L), A, "list format")
    elif other == "global-rng":
        torch.manual_seed(9)
        torch.rand(3)
        zoo.expect(ctx, op @ M, A, "product after moving the global random state")
        zoo.expect(ctx, make() @ M, A, "new operator after moving the global random state")
    elif other == "fresh":
        zoo.expect(ctx, make() @ M, A, "new operator with the same seed")
    elif other == "twin":
        b = make(seed + 1 if seed < 100 else seed - 1)
        B = b @ M
        zoo.expect(ctx, op @ M, A, "product interleaved with another operator")
        zoo.expect(ctx, b @ M, B, "other operator's second product")
    elif other == "linear":
        zoo.expect(ctx, op @ (2 * M[:, 0] - 3 * M[:, 1]), 2 * A[:, 0] - 3 * A[:, 1], "linearity")
    elif other == "symmetric":
        F = op @ torch.eye(P.D, dtype=P.dtype)
        zoo.expect(ctx, F, F.T, "symmetry")
        zoo.expect(ctx, op.adjoint() @ M, A, "adjoint")
    elif other == "psd":
        F = op @ torch.eye(P.D, dtype=P.dtype)
        ctx.check(float(torch.linalg.eigvalsh((F + F.T) / 2).min()) > -1e-9 * float(F.abs().max() + 1),
                  "negative curvature")
    elif other == "after-construction-check":
        zoo.expect(ctx, make(det=True) @ M, A, "operator constructed with the determinism check")
    elif other == "seed" and loss == "mse":
        ctx.check(not zoo.close(make(seed + 1 if seed < 100 else seed - 1) @ M, A), "the seed has no effect")


def wide(ctx):
    seeds(ctx, ["many columns"])


def decoded(ctx):
    """Many data with unit inputs: the matrix reveals the label drawn for every single datum."""
    from curvlinops import FisherMCLinearOperator

    loss = ctx.choose("loss", LOSSES, free=True)
    red = ctx.choose("reduction", REDUCTIONS, free=True)
    mc = ctx.choose("mc_samples", [1, 2], free=True)
    sizes = ctx.choose("batches", [[70, 16, 4], [90], [33, 33, 24], [16] * 5 + [10]], free=True)
    C = ctx.choose("C", [11, 3], free=True)
    seed = ctx.choose("seed", [2147483647, 5], free=True)
    N = sum(sizes)
    P = Problem("linear", loss, red, N=N, C=C, sizes=sizes)
    P.model = zoo.init(nn.Linear(N, C, bias=False), scale=0.3)
    P.params = P.all_params = list(P.model.parameters())
    P.D, P.X, P.key = N * C, torch.eye(N, dtype=P.dtype), P.key + ("unit inputs",)
    P.data = zoo.split(P.X, P.y, sizes)
    op = FisherMCLinearOperator(*P.args, check_deterministic=False, mc_samples=mc, seed=seed)
    # one block per datum: probe all of them at once (blocks of different data do not overlap)
    F = torch.stack([(op @ torch.eye(C, dtype=P.dtype)[:, [k]].expand(C, N).reshape(-1)).reshape(C, N)
                     for k in range(C)], 2).movedim(1, 0)  # [N, C, C]
    F = F / refs.scale(P)
    far = torch.zeros(C, N, dtype=P.dtype)
    far[:, 0] = 1.0
    ctx.check(float((op @ far.reshape(-1)).reshape(C, N)[:, 1:].abs().max()) <= 1e-12, "data influence each other")
    o, _ = refs.term_outputs(P)
    rank = torch.linalg.matrix_rank(F, rtol=1e-6, atol=1e-9)
    ctx.check(int(rank.max()) <= mc, f"more than {mc} labels per datum")
    if loss == "mse":
        ctx.check(int(rank.min()) == min(mc, C), "samples of one datum coincide")
        code = F.diagonal(dim1=1, dim2=2).sum(1)
    elif loss == "ce":
        p = torch.softmax(o, 1)
        G = p[:, None, :] - torch.eye(C, dtype=P.dtype)  # [N, label, C]
        S = torch.einsum("nkc,nkd->nkcd", G, G)
        if mc == 1:
            pairs = [(k,) for k in range(C)]
        else:
            pairs = [(k, l) for k in range(C) for l in range(k, C)]
        R = torch.stack([sum(S[:, k] for k in ks) / mc for ks in pairs], 1)
        err = (R - F[:, None]).abs().amax((2, 3))
        ctx.check(float(err.min(1).values.max()) <= 1e-7, "a datum's contribution does not belong to any labels")
        code = err.argmin(1).double()
    else:
        p = torch.sigmoid(o)
        if mc == 1:
            d = F.diagonal(dim1=1, dim2=2).sqrt()
            b = ((d - (1 - p)).abs() < (d - p).abs()).double()
            zoo.expect(ctx, F, torch.einsum("nc,nd->ncd", p - b, p - b), "contributions of the decoded labels")
        # number of positive labels per entry, from (1/mc) sum_m (p - b_m)^2
        k = (mc * (F.diagonal(dim1=1, dim2=2) - p**2) / (1 - 2 * p))
        ctx.check(float((k - k.round()).abs().max()) <= 1e-4 and float(k.min()) > -0.5 and float(k.max()) < mc + 0.5,
                  "a datum's contribution does not belong to any labels")
        code = (k.round() * (mc + 1.0) ** torch.arange(C)).sum(1)
    # labels of different data and mini-batches are different draws
    for lag in (*range(1, 8), 8, 16, 24, 32, 33, 64, 70):
        w = N - lag
        same = float(((code[lag:] - code[:w]).abs() <= 1e-9).double().mean())
        ctx.check(same < (0.1 if loss == "mse" else 0.9), f"labels repeat with period {lag}")


def many(ctx):
    """Many Monte-Carlo samples: every single one counts."""
    from curvlinops import FisherMCLinearOperator

    loss = ctx.choose("loss", LOSSES, free=True)
    S = ctx.choose("mc_samples", [40, 150, 3] if ctx.tier == "quick" else [150, 3, 300, 700], free=True)
    red = ctx.choose("reduction", REDUCTIONS)
    sizes = ctx.choose("batches", [[1, 1], [2]])
    C = 2 if loss == "ce" else 1
    P = Problem("linear", loss, red, N=2, C=C, sizes=sizes)
    M = torch.eye(P.D, dtype=P.dtype)
    J = refs.jacobian(P).reshape(P.N, C, P.D)
    draws.many_samples(
        ctx, lambda: FisherMCLinearOperator(*P.args, check_deterministic=False, mc_samples=S) @ M,
        lambda G: refs.scale(P) * torch.einsum("nc,ncd,ne,nef->df", G, J, G, J), (), P, S)


ASSUMPTIONS = [
    "Gaussian draws are enumerated through the two-point law with equal first and second moments",
    "BCE targets are binary", "float64; relative tolerance 1e-8",
]


def scenarios(tier):
    return [
        ("all draws", all_draws, 1 if tier == "quick" else 2,
         "every outcome of every label draw: loss x reduction x mc_samples x C x batch "
         "partition x architecture while the outcome tree has at most 36 (thorough: 70000) leaves"),
        ("saturated predictions", saturated, None,
         "every outcome of every label draw at logits of size 4 to 8: loss x reduction x architecture x C x batches"),
        ("many outputs", many_outputs, None,
         "every outcome of every label draw with up to 130 classes or 6 outputs: loss x number x reduction x kind of "
         "logits x batches"),
        ("tasks", tasks, None, "every outcome of every label draw: " + HEADS_TEXT),
        ("single precision", single_precision, None,
         "every outcome of every label draw in float32 and bfloat16: loss x reduction x architecture x C x batches"),
        ("seeding histories", seeds, 2 if tier == "quick" else 3,
         "all two-step histories over operators sharing seeds, deviations over configuration"),
        ("many samples", many, 0 if tier == "quick" else 1,
         "up to 150 (thorough 700) Monte-Carlo samples: the effect of every single draw"),
        ("decoded labels", decoded, None,
         "90 data with unit inputs: every datum's label is decoded from the matrix and compared with all others; "
         "loss x reduction x mc_samples x batches x C x seed"),
        ("wide matrices", wide, 1 if tier == "quick" else 2, "130 columns at once, deviations over configuration"),
    ]
