"""Write DESIGN.md: fixed text plus, per property, its scenarios, bounds and planted bugs."""

import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

ORACLE = {
    "C01": "per-datum Hessian by nested autograd, summed, scaled, restricted to blocks; configurations include custom, non-convex, affine and saturated losses, mini-batches of any size, parameter order, all operand formats",
    "C02": "J^T H J per datum from autograd Jacobians and the loss's own Hessian (also perfectly fitted, dead and coinciding data)",
    "C03": "outer products of per-loss-term gradients, from one backward pass per term",
    "C04": "autograd Jacobian rows in loader order; inner products; adjoints of adjoints",
    "C05": "the explorer resolves every label draw: probability-weighted expectation = GGN, each leaf = average over its drawn labels, equal seeds = equal matrices. Large sample counts and data sets: the effect of every single draw, resp. every datum's decoded label",
    "C06": "Kronecker factors from the definition (own patch extraction, one backward pass per datum and column), and the block-diagonal GGN where KFAC is exact",
    "C07": "as C05 for the gradient factors of Monte-Carlo KFAC",
    "C08": "dense inverse of the documented damped matrix built from the reference factors",
    "C09": "trace/determinant/log-determinant/norm of the dense matrix (from factors where it would overflow)",
    "C10": "the operator that was saved; independence of every operator and saved state; expected exception classes for foreign states",
    "C11": "one dense matrix per operator; linearity, column independence, repeatability, formats and shapes of results; expected rejections",
    "C12": "dense matrix times the NumPy operand, result type and aliasing rules of NumPy",
    "C13": "bitwise snapshots of model, parameters, gradients, flags, hooks, data, loss, operand and global process state around every operation",
    "C14": "the injected exception object itself; snapshots; the undisturbed operator's results. Sites: container, model, layers, loss, backward hooks, user operators, SciPy-level products",
    "C15": "whether the enumerated traversals differ by construction (raise) or not (stay quiet)",
    "C16": "the reference of the whole data set",
    "C17": "a reference computed from the current parameters and data after every update; for KFAC the matrix of its first use",
    "C18": "NumPy indexing of the dense matrix",
    "C19": "numpy.linalg solve / lstsq with error bounds from the documented tolerances",
    "C20": "matrix powers, in closed form where numbers of terms are large",
    "C21": "v^T A v, v*(Av), |Av|^2 and exact expectations over all sign vectors",
    "C22": "exact trace on the span plus Hutchinson on its complement, for every basis and sample vector",
    "C23": "an independent Lanczos recursion, exact moments, densities by their formula, eigenvalues for boundaries",
    "C24": "C23's references averaged over the object's first runs",
    "C25": "Hessian with respect to a zero perturbation added to the feature in a hand-written forward pass",
    "C26": "autograd on the loss of the whole data set",
    "C27": "dense sums of outer products",
    "C28": "direct differentiation without functorch",
    "C29": "a table of the documented requirements; accepted configurations must also multiply correctly",
    "C30": "the same operator under the standard defaults (bitwise or to rounding), device and type of every returned tensor",
    "C31": "the same composition evaluated on dense matrices",
    "C32": "index-by-index patches of a zero-padded copy (also contracted against PyTorch's convolution); the loss's Hessian by autograd",
}

HEAD = """# Model checking curvlinops

The technique is stateless explicit-state model checking of the *real implementation*. A scenario drives the package in
`/repo`; everything that is non-deterministic about the system - configuration, input, the next operation of a history,
the outcome of every random draw, the point at which user code fails, what the k-th traversal of a loader yields, the
process's default device - is a choice point, and the explorer executes every path of the choice tree within a stated
bound. No separate model of the code exists, so there is nothing to keep bound to it: every trace is an execution of the
code, and the evidence counts states (nodes of the choice tree), transitions (edges) and traces (complete executions
judged). curvlinops has no threads, no files of its own and no protocol; its behaviours are configurations, inputs,
histories, random outcomes and faults, and these are what is enumerated.

## Layout

| path | what |
|---|---|
| `mc/engine.py` | the explorer (depth-first replay, deviation bound, 8 worker processes, evidence, replay files), `Enumerator` (all outcomes of the draws inside one operation with their probability) |
| `mc/rng.py`, `mc/draws.py` | own the randomness: NumPy's module functions/generators and torch's random ops are resolved by the explorer or scripted |
| `mc/zoo.py` | models, losses, data, data containers, operand formats |
| `mc/refs.py` | dense references from the definitions (autograd per datum), sharing no code with the package |
| `mc/world.py` | snapshots of everything an operation could disturb |
| `checks/cNN.py` | one property each: scenarios, bounds, judgement; `checks/ops.py` the table of operator kinds |
| `bin/check CNN --tier quick|thorough [--replay FILE]` | decides one property; `bin/setup` import test |
| `tools/spec.py`, `tools/findings.py`, `tools/design.py` | write `properties.jsonl`, `MANIFEST.json`, `known_findings.json`, this file |
| `tools/bugs.py` | builds, validates and checks the planted bugs of `seeded/` (not used by any check) |
| `tools/mutate.py` | mutation analysis of the checks (not used by any check) |

**Bounds.** A choice is either *free* (explored completely) or costs one *deviation* from its default; a path may contain
at most `bound` deviations (the analogue of a preemption bound: most configuration bugs need one or two unusual settings
at once). Choices that interact strongly (loss x reduction x partition x format) additionally appear in scenarios with the
full product (bound: none). The check fails (exit 3) when its frontier is not exhausted. The thorough tier raises the
bounds (deviations, history lengths, outcome trees).

**Random draws.** Estimators and Monte-Carlo operators are quadratic in every Gaussian draw, so replacing the Gaussian by
the two-point law with equal mean and variance keeps all expectations exactly; categorical and Bernoulli draws have their
real probabilities. Enumerating all outcomes therefore *decides* unbiasedness, which no test can. Where the law of single
samples matters (Gaussian vs. sign vectors) a scenario with the real generators complements this. If changed code draws
from a primitive that has no finite outcome set, the path is counted as outside the domain, not judged.

**Beyond the small scope.** Enumeration covers small problems; bugs that need many data, classes, positions, layers,
columns, mini-batches, samples, terms or repeats are reached by `large` scenarios (full products of a few big problems)
and by enumerating the effect of each single draw of a long sequence.

**Judging.** Only public API and documented behaviour is used: values against dense references (relative 1e-8 in float64),
exception classes (never messages), snapshots of the surroundings. No check looks at source text or private attributes.

**Why this reaches what tests cannot**: `why_tests_cant` in `properties.jsonl`, per property.

## Properties

The bound is the number of deviations ("full": no bound, complete product). Quick / thorough in that order. Wall times of
the quick tier on 8 idle cores are 1-25 s per check, the thorough tier takes up to about 10 minutes per check.
"""

TAIL = """
No property is listed as not applicable: each is decided by exhaustive enumeration of executions within its bound.

## Domain restrictions (deliberate)

K = 0 columns; GGN with losses affine in the output; layers whose parameters are shared between several KFAC layers or that
are called several times in a forward pass, or never by any mini-batch; a KFAC inverse's cache after its operator was reloaded; in-place parameter
updates between saving a state in memory and loading it; empty index lists; index or parameter lists mutated by the user
after construction; determinism variations visible in one traversal only; losses with reduction "none"; class weights or ignored
classes under a mean over several mini-batches, and for sampled or type-2 Fishers (the closed forms are documented for the plain losses);
soft labels for EF, Fisher and KFAC; type-2 KFAC with positive weights; activation features
modified in place through another consumer of the same tensor, or that require no gradient, and activation Hessians of
mapping inputs; Jacobians of mapping data with several prediction rows per datum; user operators that return or re-use
their operand's memory; ambient `no_grad`/`inference_mode` (PyTorch's own error); unequal "same" padding in KFAC
(documented NotImplementedError); the value (not the sign, nor the log) of determinants whose factors leave the range of
floating-point numbers. Layer normalisation is left out of C28 because of a PyTorch defect in forward-over-reverse mode.

## Findings

`known_findings.json` lists every genuine defect found. All but three are repaired by `fix:` commits in `/repo`, each
demonstrated on the unrepaired code by the check of the named property. The three that remain concern 0-dimensional
parameters in `curvlinops/examples/functorch.py` (reference functions for examples, left as they are); C28 prints them as
KNOWN-FINDING, identified by function and exception, and reports anything else.

False alarms met while building (the check was wrong and was corrected): judging float32 results of SciPy-level sums by
float64 tolerances, determinants of ill-conditioned factors, Lanczos vectors after an exhausted Krylov space, Gaussian
entries identified with the two-point law where single samples matter, restored inverses after their operator was
reloaded, rank-deficient Hutch++ bases, and the value of determinants near 1e300 (their factors overflow).

## Validation of the machinery

**Planted bugs.** `seeded/` holds {n} changes written from the property texts and the code, each confirmed in a scratch copy
(patch applies, stable tests pass, demonstration passes without and fails with it). Every one is caught by the quick check
of its property; the table above names them. Bugs that a check missed when they were written, and what was added:
sub-matrix or Neumann operators memoising products by operand (C17 `built`, C31 `live`), forgetting early Lanczos runs
(C24 `long`), permuting many mini-batches (41 mini-batches in every `large` scenario), sub-normal determinants (C09
`edge`), repeated mini-batch objects (C16 `repeats`), samples or columns beyond a block size (`many samples`, 70 and 130
columns), labels drawn alike in large batches (C05 `decoded labels`), estimated boundaries with a coarse tolerance (C23
`accuracy`), default subspace sizes (C22 `default size`), floating-point error settings and other process state (C13
`SciPy level`), saved options of losses (C10 `loss options`).

**Mutation analysis.** `tools/mutate.py` applies systematic mutations (operators, constants, conditions, dropped
statements and arguments, swapped arguments) to every module of the package and runs the checks against each. {mut}

**Behaviour-preserving refactorings.** A copy of the package was refactored throughout (helpers extracted and renamed,
private attributes renamed, loops rewritten, statements reordered, comprehensions and expressions replaced, hooks
registered differently); all checks stay quiet on it, for several values of `VERIF_SEED`.
"""


def main(mut):
    props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
    bugs = {}
    for meta in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        bugs.setdefault(json.load(open(meta))["property"], []).append(os.path.basename(os.path.dirname(meta)))
    out = [HEAD]
    for p in props:
        i = p["id"]
        m = importlib.import_module(f"checks.{i.lower()}")
        out.append(f"### {i} {p['title']}\n\n*Oracle.* {ORACLE[i]}.\n")
        quick, deep = ({n: (b, t) for n, _, b, t in m.scenarios(tier)} for tier in ("quick", "thorough"))
        for n in dict.fromkeys([*quick, *deep]):
            b = [("full" if s[n][0] is None else str(s[n][0])) if n in s else "-" for s in (quick, deep)]
            out.append(f"- `{n}` ({b[0]} / {b[1]}): {(quick.get(n) or deep[n])[1]}")
        out.append("\n*Assumptions.* " + "; ".join(getattr(m, "ASSUMPTIONS", ["none"])) + ".")
        out.append(f"\n*Planted bugs caught.* {', '.join(bugs.get(i, [])) or 'none'}.\n")
    out.append(TAIL.format(n=sum(map(len, bugs.values())), mut=mut))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))


if __name__ == "__main__":
    main(open(os.path.join(ROOT, "tools", "mutation.txt")).read().strip())
