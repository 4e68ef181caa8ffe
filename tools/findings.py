"""Writes known_findings.json (``python tools/findings.py``; run by hand, never by a check)."""

import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = {  # subject of the fix commit -> (property, what failed)
    "detach the sampled would-be gradients in the MC Fisher": ("C05", "MC Fisher with MSELoss: the sampled gradients stayed attached to the graph, so the GGN of the pseudo loss contained wrong terms"),
    "support a single class in the cross-entropy Hessian square root": ("C06", "KFAC type-2 with one class failed in a squeeze"),
    "respect a convolution's padding mode in KFAC's input covariance": ("C06", "Conv2d(padding_mode='circular'|'reflect'|'replicate'): patches were extracted with zero padding"),
    "do not leak hooks or partial factors if computing KFAC fails": ("C14", "an exception while computing KFAC left hooks on the model and half-accumulated factors that later products used"),
    "validate and copy the Kronecker factors when (re)storing KFAC": ("C10", "state dictionaries aliased the live factors; states with missing or ill-shaped factors were accepted"),
    "use SciPy's default condition limit in the LSMR inverse": ("C19", "LSMR stopped early: conlim=None became the limit 0/None instead of 1e8"),
    "do not modify the operand of the KFAC inverse": ("C08", "inverse @ list replaced entries of the operand list"),
    "no infinite heuristic damping for layers with vanishing inputs": ("C08", "heuristic damping gave inf/NaN for layers whose input (gradient) factor vanishes"),
    "do not share the inverse Kronecker factors between KFAC inverses": ("C10", "two KFAC inverses restored from one state shared their cached factors"),
    "raise ValueError when multiplying onto a scalar tensor": ("C11", "operator @ 0-dimensional tensor raised IndexError"),
    "multiply SciPy exports onto integer- and complex-valued arrays": ("C12", "export @ integer array truncated the result; complex operands lost the imaginary part"),
    "do not cache an incomplete subspace trace in Hutch++": ("C22", "a product failing while preparing the subspace left a partially accumulated trace behind"),
    "multiply sub-matrices onto single columns and keep the operand's type": ("C18", "sub-matrix @ (n,1) column failed, products of other data types were cast"),
    "multiply outer products onto matrices": ("C27", "OuterProductLinearOperator @ matrix with one column or of other type failed"),
    "compare the total rather than the last batch's loss in the safeguard": ("C15", "the safeguard compared the last mini-batch's loss only"),
    "detect a varying number of mini-batches in the determinism safeguard": ("C15", "loaders yielding additional batches in one traversal were not detected (zip)"),
    "support losses that are linear in some parameters in the Hessian": ("C01", "Hessian of a loss that is linear in a parameter raised instead of giving zero"),
    "activation Hessian of features that are modified in-place": ("C25", "the activation Hessian w.r.t. a feature modified in-place by the next layer was wrong or failed"),
    "multiply SciPy exports onto arrays with negative strides": ("C12", "export @ array[::-1] raised ValueError"),
    "report non-determinism of mini-batches with different shapes as RuntimeError": ("C15", "traversals with different batch shapes raised a broadcasting error instead of RuntimeError"),
    "no absolute tolerance by default in the CG inverse": ("C19", "CG returned zero for right-hand sides of small norm (atol defaulted to rtol)"),
    "Lanczos iterations that reach an invariant subspace": ("C23", "fast_lanczos divided by zero (NaN, ValueError) when the Krylov space is exhausted exactly, e.g. for a zero matrix"),
    "support losses that are linear in the activation in the activation Hessian": ("C25", "activation Hessian of a loss that is linear in the feature raised instead of giving zero"),
    "activation Hessian of one of several outputs that is modified in-place": ("C25", "activation Hessian w.r.t. an element of a layer's output tuple that is modified in-place afterwards was silently wrong"),
    "error message for unknown distributions": ("C29", "sample(distribution=None) raised TypeError (malformed format string) instead of ValueError"),
    "activation Hessian of a named tuple's entry that is modified in-place": ("C25", "activation Hessian w.r.t. an entry of a layer's named-tuple output that is modified in-place afterwards was silently wrong"),
    "multiply SciPy exports onto extended-precision and byte-swapped arrays": ("C12", "export @ array of type longdouble, clongdouble or non-native byte order raised TypeError or ValueError"),
    "keep the loss function's options when saving and restoring KFAC": ("C10", "KFAC.from_state_dict dropped label_smoothing, pos_weight and weight of the loss; load_state_dict accepted states with other options"),
    "draw would-be gradients of square loss in the prediction's data type": ("C30", "the Monte-Carlo Fisher of a double precision model with MSELoss depended on the default data type (the standard deviation was rounded to it)"),
    "Hessian, gradient and loss for parameters that a mini-batch does not use": ("C01", "the Hessian (also gradient_and_loss and the safeguard of all operators) raised RuntimeError if a mini-batch's loss does not depend on one of the parameters, which the GGN and Fisher operators support"),
    "gradient and loss for losses that are views or needed by their own backward pass": ("C26", "gradient_and_loss (also the safeguard) raised RuntimeError or gave wrong gradients for losses whose last operation is a view or keeps its result for the backward pass (exp, sqrt, a single entry), because the loss was scaled in-place"),
    "mini-batches that do not use some, or any, of the parameters": ("C05", "Jacobians, GGN, Fishers, Hessian, KFAC and gradient_and_loss raised RuntimeError for mini-batches whose outputs do not use any (KFAC: some) of the parameters, although such batches simply contribute zero"),
    "KFAC rejects re-parameterized weights instead of treating them like biases": ("C29", "KFAC accepted layers with weight_norm or a parametrized weight and silently treated parameters like weight_g, parametrizations.weight.original0 as biases"),
    "KFAC with joint weight and bias on operands that require gradients": ("C06", "KFAC with separate_weight_and_bias=False raised RuntimeError for operands that require gradients, e.g. KFAC @ list(model.parameters())"),
}
EXTRA = json.load(open(os.path.join(ROOT, "tools", "extra_findings.json"))) if os.path.exists(
    os.path.join(ROOT, "tools", "extra_findings.json")) else []


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], capture_output=True, text=True,
                         check=True).stdout.splitlines()
    out = list(EXTRA)
    for line in log:
        h, s = line.split(" ", 1)
        if not s.startswith("fix: "):
            continue
        prop, what = FIXED[s[5:]]
        out.append({"property": prop, "status": "fixed", "commit": h, "what": what,
                    "entry": f"fixed: property={prop} {h} {what}"})
    with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
        json.dump({"findings": out}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
