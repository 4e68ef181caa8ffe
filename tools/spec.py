"""Single source of properties.jsonl and MANIFEST.json: ``python tools/spec.py`` (run in /verif)."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TB, KF, INV = "curvlinops/_torch_base.py", "curvlinops/kfac.py", "curvlinops/inverse.py"
KU, FI, GG, HE, EF = ("curvlinops/kfac_utils.py", "curvlinops/fisher.py", "curvlinops/ggn.py",
                      "curvlinops/hessian.py", "curvlinops/gradient_moments.py")
JA, SU, OU = "curvlinops/jacobian.py", "curvlinops/submatrix.py", "curvlinops/outer.py"
TR, DI, NO, HP = ("curvlinops/trace/hutchinson.py", "curvlinops/diagonal/hutchinson.py",
                  "curvlinops/norm/hutchinson.py", "curvlinops/trace/meyer2020hutch.py")
SP, AH, FT, EU = ("curvlinops/papyan2020traces/spectrum.py", "curvlinops/experimental/activation_hessian.py",
                  "curvlinops/examples/functorch.py", "curvlinops/examples/utils.py")
SA, UT = "curvlinops/sampling.py", "curvlinops/utils.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, state=state, observe=observe))


TRUST = ("Every explored behaviour is an execution of the real package; the oracle is an independent dense "
         "reference evaluated on the same path. Trusted: PyTorch autograd/NumPy/SciPy and the reference code. ")
ENUM = "explicit-state exploration of the implementation: exhaustive enumeration of "

prop("C01", "Hessian operator equals the second derivative of the empirical risk",
     "Multiplying with the Hessian operator gives exactly the second derivative of the empirical risk with respect to "
     "the listed parameters (in the listed order) times the operand: the risk is the sum of the per-datum losses, "
     "divided by the number of data (loss terms) for mean reduction, no matter how the data are split into mini-batches "
     "of possibly different size. When block sizes are given, everything outside the diagonal blocks formed by the "
     "consecutive parameter groups is exactly zero and the diagonal blocks are unchanged. It holds for every "
     "twice-differentiable model and loss, including losses that are constant or linear in some of the parameters, or do not use them in some mini-batches.",
     ["inputs", "configurations"], "all models, losses, reductions, mini-batch partitions, parameter subsets and orders, block partitions, operands",
     "The suite compares a dozen fixed cases; uneven partitions, parameter orders, block structures, custom losses and "
     "their combinations are sampled at single points.",
     [HE, TB], [("mini-batch scaling", f"{TB} _get_normalization_factor"), ("block-wise HVP", f"{HE} _matmat_batch")],
     ENUM + "configurations up to a deviation bound",
     TRUST + "Bound: at most 2 (thorough 3) simultaneous deviations from a base configuration plus full products of the normalisation-relevant choices.")

prop("C02", "GGN operator equals J^T H J of the empirical risk",
     "Multiplying with the generalized Gauss-Newton operator gives exactly the (mean- or sum-reduced) sum over all data "
     "of output Jacobian transposed, loss Hessian with respect to the model output, output Jacobian, times the operand. "
     "The result does not depend on the split into mini-batches, supports outputs with additional (sequence or spatial) "
     "axes, any parameter subset and order, and every convex or non-convex twice differentiable loss of the output.",
     ["inputs", "configurations"], "all models, losses, reductions, partitions, output layouts, parameter subsets and orders, operands",
     "Tests compare a fixed list of cases with functorch; combinations of partition, reduction, output layout, loss options and parameter order are not covered.",
     [GG, TB], [("GGN-vector products", f"{GG} _matmat_batch"), ("mini-batch scaling", f"{TB} _get_normalization_factor")],
     ENUM + "configurations up to a deviation bound",
     TRUST + "Bound: at most 2 (thorough 3) deviations plus full normalisation products.")

prop("C03", "Empirical Fisher equals the scaled sum of gradient outer products",
     "For square, cross-entropy and binary cross-entropy losses, multiplying with the empirical Fisher gives the sum of "
     "outer products of the per-loss-term gradients times the operand; with mean reduction each gradient is that of the "
     "unreduced loss term and the sum is divided by the number of averaged loss entries, otherwise it is not scaled. "
     "Positions along additional output axes count as separate loss terms, loss options such as label smoothing and "
     "positive weights are respected, and the result is independent of the mini-batch split; other losses are rejected "
     "with NotImplementedError.",
     ["inputs", "configurations"], "all models, supported losses and options, reductions, partitions, output layouts, parameter subsets, operands",
     "Tests compare a fixed list of cases with functorch's implementation on one partition each.",
     [EF, TB], [("pseudo-loss with GGN equal to the EF", f"{EF} _matmat_batch")],
     ENUM + "configurations up to a deviation bound",
     TRUST + "Bound: at most 2 (thorough 3) deviations plus full normalisation products.")

prop("C04", "Jacobian operators: rows are outputs in data order, adjoint is the transpose",
     "Multiplying with the Jacobian operator gives the derivative of the concatenated model outputs (data in loader "
     "order, each output flattened) with respect to the parameters, times the operand; multiplying with the transposed "
     "Jacobian operator gives the transpose of the same matrix. Taking the adjoint of either yields the other, twice "
     "yields the original matrix, and inner products satisfy the adjoint identity for every mini-batch split and output layout.",
     ["inputs", "configurations"], "all models, output layouts, partitions, parameter subsets and orders, operands",
     "Tests compare single cases; the splitting of the output space over uneven batches and higher-dimensional outputs combined with adjoints is not explored.",
     [JA, TB], [("splitting/concatenating outputs over batches", f"{JA} _matmat"), ("adjoint construction", f"{JA} _adjoint")],
     ENUM + "configurations up to a deviation bound",
     TRUST + "Bound: at most 2 (thorough 3) deviations plus the full core product.")

prop("C05", "Monte-Carlo Fisher is unbiased, seeded, and a fixed matrix",
     "Over the law of the sampled labels, the expectation of the Monte-Carlo Fisher's matrix is exactly the type-2 "
     "Fisher (the GGN) for square, cross-entropy (one-hot and higher-dimensional outputs) and binary cross-entropy losses, "
     "for each reduction, number of samples and mini-batch split; every single outcome is a symmetric positive "
     "semi-definite average over the drawn labels. For a fixed seed the operator is one fixed matrix: repeated products, "
     "columns, and operand formats see the same draws, equal seeds give equal matrices, and operators do not influence each other's draws.",
     ["inputs", "configurations", "histories"], "all outcomes of all label draws; all losses, reductions, sample counts, partitions; all histories of operators sharing seeds",
     "Tests can only compare a sample average against the GGN with loose tolerances; a bias of a few percent or a reused draw passes.",
     [FI, TB], [("label sampling", f"{FI} sample_grad_output"), ("re-seeding before each product", f"{FI} _matmat")],
     ENUM + "every outcome of every random draw (probability-weighted) and of seeding histories",
     TRUST + "Gaussian draws are enumerated through the two-point law with equal first two moments (the quantity is quadratic in the draw). Bound: outcome trees of at most 81 (thorough 70000) leaves.",
     state=[("generator", "random generator of the operator, restarted at every product", f"{FI} _matmat")])

prop("C06", "KFAC with deterministic Fisher equals its Kronecker definition",
     "For the type-2, empirical and forward-only Fisher types, multiplying with the KFAC operator gives block-diagonal "
     "Kronecker products per linear or convolution layer: the input-based factor is the average (expand) or reduced-position "
     "(reduce) second moment of the layer inputs including a one for a jointly treated bias, and the gradient-based factor "
     "is the correspondingly scaled sum of backpropagated outer products, with bias treated jointly or separately as "
     "requested. Convolution stride, padding, padding mode, dilation and groups are respected, a mini-batch that does not use a layer contributes nothing to it, the result is independent of "
     "the mini-batch split, and it coincides with the block-diagonal GGN wherever KFAC is documented to be exact "
     "(e.g. one datum, or deep linear networks with square loss).",
     ["inputs", "configurations"], "all Fisher types, approximations, bias options, layer hyper-parameters, losses, reductions, partitions, parameter selections",
     "Tests check the exact cases of the paper; outside of them, factors with non-uniform batches or unusual convolution settings are never compared to the definition.",
     [KF, KU], [("input covariance hook", f"{KF} _hook_accumulate_input_covariance"), ("gradient covariance hook", f"{KF} _accumulate_gradient_covariance"), ("loss Hessian square root", f"{KU} loss_hessian_matrix_sqrt"), ("patch extraction", f"{KU} extract_patches")],
     ENUM + "configurations up to a deviation bound",
     TRUST + "Each parameterised layer is used at most once per forward pass, and by some mini-batch. Bound: at most 2 (thorough 3) deviations plus full core and exactness products.")

prop("C07", "Monte-Carlo KFAC: right expectation over label draws, reproducible by seed",
     "Over the law of the sampled labels, the expectation of the gradient-based factors of Monte-Carlo KFAC equals those "
     "of the deterministic type-2 Fisher where both are defined, and each outcome is built from outer products of "
     "gradients at drawn labels, for every loss, reduction, number of samples and mini-batch split. Equal seeds give equal "
     "matrices, different operators do not influence each other's draws, and the global generator is neither read nor advanced.",
     ["inputs", "configurations", "histories"], "all outcomes of all label draws; all seeding histories over several operators",
     "Tests compare averages over thousands of samples with loose tolerances, for a handful of cases.",
     [KF], [("label sampling", f"{KF} draw_label"), ("loss scaling of the pseudo-gradient", f"{KF} _compute_loss_and_backward")],
     ENUM + "every outcome of every random draw and of seeding histories",
     TRUST + "Two-point law for Gaussians. Bound: outcome trees of at most 36 (thorough 5000) leaves.",
     state=[("generator", "the operator's seeded generator", f"{KF} _compute_kfac")])

prop("C08", "KFAC inverse is the inverse of the documented damped KFAC matrix",
     "Multiplying with the KFAC inverse and then with the KFAC matrix damped as documented (plain damping added to every "
     "Kronecker factor, the trace-heuristic split that reduces to equal factors when it is undefined, or exact damping of "
     "the full matrix) returns the operand, for scalar damping, per-factor damping pairs, joint and separate biases, and "
     "every parameter selection. Results do not depend on caching or on the call history, operands and the original operator "
     "are left unchanged, and ill-conditioned factors are retried in double precision only when that was requested.",
     ["inputs", "configurations", "histories"], "all damping rules, cache settings, bias options, parameter selections, operation histories",
     "Tests check a few damping values per case; cached versus uncached histories, partial parameter lists and degenerate factors are not combined.",
     [INV, KF], [("damping", f"{INV} _compute_damping"), ("factor inversion", f"{INV} _compute_inverse_factors"), ("cache", f"{INV} _compute_or_get_cached_inverse")],
     ENUM + "configurations and operation histories",
     TRUST + "Bound: 1 (2) deviations, operation sequences of length 3 (4), full products of degenerate layers.",
     state=[("inverse cache", "per-layer inverse factors", f"{INV} _compute_or_get_cached_inverse")])

prop("C09", "KFAC trace, determinant, log-determinant, Frobenius norm are those of the matrix",
     "The four scalar summaries of a KFAC operator equal the trace, determinant, log-determinant and Frobenius norm of the "
     "dense matrix the operator represents, for every Fisher type, bias option, layer type and parameter selection. They "
     "keep doing so in every order and interleaving of reading them, multiplying, saving or restoring state, and inverting.",
     ["configurations", "histories"], "all KFAC configurations; all histories of reads and other operations",
     "Tests read each property once after construction; parameter subsets, reading orders and restored states are not combined.",
     [KF], [("cached scalar properties", f"{KF} trace/det/logdet/frobenius_norm"), ("cache reset", f"{KF} _reset_matrix_properties")],
     ENUM + "configurations and reading histories",
     TRUST + "Determinants are judged for condition numbers below 1e5. Bound: 2 deviations; sequences of length 4 (5).",
     state=[("_trace/_det/_logdet/_frobenius_norm", "lazily cached summaries", KF)])

prop("C10", "Saved and restored KFAC and KFAC inverses behave identically and independently",
     "A KFAC operator or KFAC inverse restored from a saved state (into an existing or newly built operator, in memory or "
     "through a file) represents the same matrix with the same summaries as the one saved, before or after its factors were "
     "computed. Later products, loads or modifications of one operator never change another one or a saved state, and a "
     "state that belongs to a different model, loss, reduction, parameter mapping or setting is rejected with ValueError "
     "leaving the operator usable and unchanged.",
     ["histories", "configurations"], "all histories of products, saves and loads over two operators; all kinds of foreign state",
     "Tests do one save/load round trip per case and a few invalid states.",
     [KF, INV], [("state_dict/load_state_dict/from_state_dict of KFAC", KF), ("state_dict/load_state_dict/from_state_dict of the inverse", INV)],
     ENUM + "save/load operation histories",
     TRUST + "Bound: all sequences of length 4 (5) over two operators; 1 (2) configuration deviations for round trips.")

prop("C11", "Every operator is one fixed linear map, consistent in all operand formats",
     "Every operator (curvature, Jacobian, KFAC, inverse, user-defined) represents one fixed matrix: products are linear "
     "in the operand, each column is processed independently of the others, repeated products agree, and vectors, matrices "
     "and lists of parameter-shaped tensors (with or without a trailing column axis) all give the same numbers in the format "
     "of the operand, with shape attributes matching. The adjoint is the transpose (self-adjoint operators return the same "
     "matrix), curvature matrices are symmetric and those documented as positive semi-definite are; malformed operands are rejected with ValueError.",
     ["inputs", "configurations"], "all operators, operand formats, column counts, input/output shape lists, malformed operands",
     "Tests multiply random operands in each format once per case.",
     [TB], [("input checks and flattening", f"{TB} _check_input_and_preprocess"), ("output checks", f"{TB} _check_output_and_postprocess")],
     ENUM + "shape lists, operand formats and configurations",
     TRUST + "Bound: all lists of up to 3 (4) input and 2 output shapes; 1 (2) configuration deviations per operator.")

prop("C12", "SciPy export computes the same products for every NumPy operand",
     "The exported SciPy operator has the same shape and real data type as the original (or the requested one) and its "
     "matrix-vector, matrix-matrix, right and adjoint products equal those with the dense matrix for every NumPy array: any "
     "data type, memory order, strides (also negative), read-only flags, and number of columns. The operand is not modified, "
     "the result is a new array of the operand's floating type, and SciPy's algebra and solvers on top of the export agree with dense computations.",
     ["inputs", "configurations"], "all operators, entry points, NumPy array kinds, data types, column counts",
     "Tests use contiguous float arrays with matching dtype.",
     [TB], [("NumPy/Torch conversion", f"{TB} _scipy_compatible"), ("export", f"{TB} to_scipy")],
     ENUM + "entry points, array layouts and data types",
     TRUST + "Full product operator x entry point x array kind; data types as deviations (bound 0 quick / 2 thorough, 2/3 for data types).")

prop("C13", "Using an operator leaves model, parameters, data, loss and process state alone",
     "No operation of any operator (construction, products in any format, adjoint, export, summaries, inversion, saving, "
     "gradient) changes parameters, buffers, gradients, requires-grad flags, training mode, hooks, data tensors, the "
     "operand, or the loss, and none changes global settings such as default data type, gradient mode, or the state of the "
     "global random generators (apart from the determinism probe's test vector). Results are detached from the autograd graph.",
     ["configurations", "histories"], "all operators x operations x pairs of operations x model states (modes, gradients, user hooks)",
     "Tests never compare the surroundings before and after.",
     [TB, KF, INV], [("gradient computation without accumulation", TB), ("temporary hooks", f"{KF} _compute_kfac")],
     ENUM + "operation pairs with snapshots of all observable surroundings",
     TRUST + "Bound: 1 (2) deviations over model, loss, mode, gradients, hooks; all pairs of operations.")

prop("C14", "An exception in user code reaches the caller and leaves no trace",
     "If the data container, the model, one of its layers, the loss, or a backward hook raises at any point of any "
     "operation, that very exception reaches the caller, model and process state are as before (no leftover hooks, "
     "gradients, modes or changed settings), and repeating the operation, or any other one, on the same operator gives the "
     "correct result as if the failure had not happened.",
     ["fault_sequences", "crash_points", "histories"], "every event of every fault site in every operation of every operator; follow-up operations",
     "No test injects faults.",
     [KF, TB, INV], [("hook removal when computing KFAC fails", f"{KF} _compute_kfac"), ("caches set only after success", KF)],
     "fault enumeration: " + ENUM + "every fault point in every operation, then recovery",
     TRUST + "Faults are Python exceptions. Bound: one (thorough two successive) faults.",
     state=[("factors", "partially accumulated Kronecker factors", KF)])

prop("C15", "Non-determinism is reported by the safeguard, determinism never",
     "Constructing an operator with the determinism check raises RuntimeError whenever two traversals of the data differ "
     "(values, targets, batch sizes, number or order of mini-batches where it matters, mapping entries) or the "
     "model or loss changes from call to call so that predictions, losses, gradients or products differ noticeably. It never "
     "raises for deterministic models, losses and data, whatever the container, model mode, batch sizes or reduction.",
     ["histories", "configurations"], "all histories of two traversals, all operators, losses, reductions, containers",
     "Tests use shuffling loaders, dropout and batch norm once each, and never a data order of batches with equal losses etc.",
     [TB], [("per-batch comparison", f"{TB} __check_deterministic_batch"), ("total loss and gradient comparison", f"{TB} _check_deterministic"), ("matvec comparison", f"{TB} __check_deterministic_matvec")],
     ENUM + "traversal histories and misbehaving components",
     TRUST + "Variations are far above or far below tolerance. Bound: 2 deviations (thorough: full product).")

prop("C16", "Only the data set counts: not its split, container or display options",
     "Products, summaries, gradients and losses of an operator depend on the data only as a set: every split into "
     "mini-batches, every order (for all but the row order of Jacobians), every container (list, tuple, loader, re-iterable "
     "without length, mapping inputs with a batch-size function), an explicit or inferred data count, the progress bar and the determinism check give the same result.",
     ["inputs", "configurations"], "all compositions of small data sets into batches, all orders, containers and options",
     "Tests use two or three fixed partitions and mostly lists.",
     [TB], [("mini-batch loop", f"{TB} _loop_over_data"), ("data count", f"{TB} __init__"), ("normalisation", f"{TB} _get_normalization_factor")],
     ENUM + "partitions, orders, containers",
     TRUST + "All compositions of N=3,4; bounds 0-2 deviations over loss, reduction, architecture, batches.")

prop("C17", "Operators are live views of parameters and data; KFAC a consistent snapshot",
     "After any sequence of in-place changes to parameters or data tensors, products, adjoints, exports, gradients and "
     "estimators built on top of a (non-KFAC) operator reflect the current values, never stale ones. A KFAC operator keeps "
     "the matrix of its first use consistently across products, summaries, state and inverses, and a new one sees the new values.",
     ["histories"], "all histories of updates and observations, then every view",
     "Tests never update parameters after constructing an operator.",
     [TB, KF, INV], [("lazy evaluation", f"{TB} _matmat"), ("KFAC caches", f"{KF} _compute_kfac")],
     ENUM + "update/observation histories",
     TRUST + "Bound: histories of length 2 (3) per operator, 1 deviation.",
     state=[("Kronecker factors", "computed at first use", KF)])

prop("C18", "Sub-matrix operator equals row/column indexing of the dense matrix",
     "For every pair of row and column index lists (any order, any valid subset) the sub-matrix operator's products with "
     "vectors, columns and matrices, from the left and through the adjoint, equal those of the dense matrix indexed with "
     "these lists, with the proper shape and type. Re-defining the indices takes effect immediately and completely, and "
     "duplicate, negative or too large indices are rejected with ValueError while leaving the previous definition intact.",
     ["inputs", "histories"], "all ordered index lists of small matrices, all histories of re-definitions",
     "Tests use random index lists on three matrices.",
     [SU], [("scatter/gather", f"{SU} _matvec"), ("validation", f"{SU} set_submatrix")],
     ENUM + "all ordered index lists and re-definition histories",
     TRUST + "Matrices up to 4x2/3x3; histories of length 3 (4).")

prop("C19", "CG and LSMR inverses solve the linear system they stand for",
     "Multiplying with the CG inverse of a symmetric positive definite operator, or with the LSMR inverse of any square "
     "operator, returns the (least-squares) solution of the linear system to the accuracy of the chosen tolerances, scale-"
     "independently, for vectors, columns and matrices. Hyper-parameters changed at any time apply to all later products and "
     "only to that object; the LSMR variant with solver information returns the same solution.",
     ["inputs", "histories"], "all small integer matrices and right-hand sides, histories of settings and products",
     "Tests solve one system per case with hand-picked tolerances.",
     [INV], [("solver calls", f"{INV} CGInverseLinearOperator._matvec, LSMRInverseLinearOperator.matvec_with_info")],
     ENUM + "matrices, right-hand sides and setting histories",
     TRUST + "All 81 matrices of a 2x2 grid x 9 right-hand sides, plus conditioning, curvature and history spaces.")

prop("C20", "Neumann inverse is exactly the truncated series",
     "Multiplying with the Neumann inverse equals scale times the sum of the first powers of the identity minus the scaled "
     "operator, up to and including the chosen number of terms, for every square operator, right-hand side and format, and "
     "hence converges to the inverse inside the radius of convergence. If not-a-number values occur a ValueError is raised "
     "exactly when that check is enabled, and changed hyper-parameters apply to all later products.",
     ["inputs", "histories"], "all small matrices, term counts, scales, right-hand sides, histories",
     "Tests only check convergence for one matrix.",
     [INV], [("series", f"{INV} NeumannInverseLinearOperator._matvec")],
     ENUM + "matrices, hyper-parameters and histories",
     TRUST + "All 81 matrices of a 2x2 grid; 1 (3) deviations; histories of length 4 (5).")

prop("C21", "Hutchinson estimators are unbiased with the documented sample law",
     "A sample of the trace, diagonal and squared-Frobenius-norm estimators is, over all outcomes of its random vector v, "
     "exactly v^T A v, v*(A v) and |A v|^2 respectively, hence unbiased for every (square where needed) matrix; Rademacher "
     "entries are independent fair signs and normal entries standard Gaussians. Successive samples and different estimators "
     "are independent, and non-square operators or unknown distributions are rejected with ValueError.",
     ["inputs", "histories"], "all sign vectors in dimension up to 5, small matrices, pairs of samples",
     "Tests compare averages of thousands of samples with loose tolerances.",
     [TR, DI, NO, SA], [("sample", f"{TR} sample; {DI} sample; {NO} sample"), ("random vectors", f"{SA} random_vector")],
     ENUM + "every outcome of every random draw",
     TRUST + "Two-point law for Gaussians (estimators are quadratic in the draw).")

prop("C22", "Hutch++ is unbiased, exact on its subspace, and keeps one subspace",
     "Given any drawn basis, a Hutch++ sample equals the exact trace on the span of the operator's image of the basis plus "
     "the Hutchinson estimate on its orthogonal complement, so its expectation is the trace for every square matrix and it "
     "is exact when the rank does not exceed the basis size. The subspace is computed once per estimator, also under explicit "
     "preparation or failing products, successive samples are independent given it, and invalid basis sizes, distributions or non-square operators raise ValueError.",
     ["inputs", "histories", "fault_sequences"], "all bases and sample vectors over signs in dimension up to 4, histories, failing products",
     "Tests compare averages with loose tolerances.",
     [HP, SA], [("subspace cache", f"{HP} maybe_compute_and_cache_subspace"), ("sample", f"{HP} sample")],
     ENUM + "every outcome of every random draw, with fault injection",
     TRUST + "Two-point law for Gaussians (conditionally on the basis the sample is quadratic).",
     state=[("Q, tr_QT_A_Q", "cached subspace and its trace", HP)])

prop("C23", "Lanczos quadrature and spectral densities match their definition",
     "For a symmetric operator and any start vector, the Lanczos iteration returns nodes and orthonormal vectors whose "
     "squared first components weight a quadrature that reproduces the moments v^T A^k v up to order 2*ncv-1. The spectral "
     "density functions return the average over the requested repeats of Gaussian bumps at these nodes (of documented width, "
     "in normalised coordinates), on a grid covering the given or estimated spectral boundaries plus margin; the logarithmic "
     "variant does so for log(|A|+epsilon) and transforms the density accordingly.",
     ["inputs", "configurations"], "all start vectors from a grid, small symmetric matrices, hyper-parameters, boundary specifications",
     "Tests compare densities by eye or against loose reference curves for one matrix.",
     [SP], [("Lanczos iteration", f"{SP} fast_lanczos"), ("density", f"{SP} lanczos_approximate_spectrum"), ("log density", f"{SP} lanczos_approximate_log_spectrum"), ("boundaries", f"{SP} approximate_boundaries")],
     ENUM + "matrices, scripted start vectors and hyper-parameters",
     TRUST + "Start vectors are injected at the random generator; symmetric matrices of dimension up to 6.")

prop("C24", "Cached spectral densities equal the uncached ones for every call history",
     "For every sequence of calls with different numbers of repeats, resolutions, widths and margins, a cached spectrum "
     "object returns what the corresponding function would return for the same Lanczos runs: a call with r repeats averages "
     "exactly the object's first r runs. Earlier runs are reused and never changed, only missing ones are computed, and "
     "objects are independent of each other.",
     ["histories"], "all call histories over one or two objects",
     "Tests make one or two calls.",
     [SP], [("cache of Lanczos runs", f"{SP} _get_lanczos_iters")],
     ENUM + "call histories with scripted start vectors",
     TRUST + "Call sequences up to length 3 (4) over one or two objects.",
     state=[("Lanczos runs", "list of cached runs", SP)])

prop("C25", "Activation Hessian equals the loss Hessian of the chosen features",
     "For every layer name and every input or output tensor of it, the activation-Hessian operator represents the second "
     "derivative of the batch loss with respect to that intermediate tensor (flattened), even when later layers modify it "
     "in place, share it through skip connections, or it is one of several inputs or outputs. Unknown layers, input/output "
     "kinds, or more than one mini-batch are rejected with ValueError, and the model is left without hooks.",
     ["inputs", "configurations"], "all layers, positions, models, losses, reductions",
     "Tests check one activation of two models.",
     [AH], [("capturing hook", f"{AH} store_activation"), ("HVP", f"{AH} _matmat_batch")],
     ENUM + "layers, positions and models",
     TRUST + "Reference: autograd Hessian with respect to a zero perturbation added to the feature.")

prop("C26", "Gradient and loss of an operator are those of the empirical risk",
     "Asking any curvature operator with a loss for gradient and loss returns the empirical risk over the whole data set and "
     "its gradient in the order and shapes of the listed parameters, detached and independent of later calls, for every loss, "
     "reduction, mini-batch split and parameter selection. Iterating over the mini-batches yields each one's data, prediction and its "
     "share of loss and gradient, also when iterations interleave or parameters change in between. Operators without loss raise ValueError.",
     ["inputs", "configurations"], "all operators, losses, reductions, partitions, parameter selections, call histories",
     "Tests compare single cases with functorch.",
     [TB], [("accumulation", f"{TB} gradient_and_loss"), ("normalisation", f"{TB} _get_normalization_factor")],
     ENUM + "configurations up to a deviation bound",
     TRUST + "Bound: 2 (3) deviations.")

prop("C27", "Outer-product and projector operators equal their dense definition",
     "The outer-product operator equals the coefficient-weighted sum of outer products of the columns and the projector the "
     "sum with unit coefficients, for products with vectors, columns and matrices, adjoints and every memory layout. For "
     "orthonormal columns the projector is idempotent, symmetric and fixes the span.",
     ["inputs"], "all small integer matrices and coefficients, operands, array layouts",
     "Tests use one random matrix.",
     [OU], [("einsum", f"{OU} _matvec")],
     ENUM + "matrices, coefficients and operands",
     TRUST + "All 3x2 sign/zero matrices and coefficient vectors from a grid.")

prop("C28", "Reference functions and helpers agree with their direct definition",
     "The functional reference implementations (Hessian, GGN, empirical Fisher, Jacobian, gradient and loss) return the "
     "dense matrices of the whole data set in the order of the listed parameters, for every model, supported loss, reduction, "
     "mini-batch split, parameter selection and order, and mapping inputs. The comparison helpers for arrays and tensors report a difference exactly if shapes or values differ beyond "
     "the tolerances, and splitting a list by sizes partitions it in order or raises ValueError if the sizes do not add up.",
     ["inputs", "configurations"], "all models, losses, reductions, partitions, parameter selections",
     "These functions are the oracle of the test suite and are not themselves tested.",
     [FT, EU, UT], [("splitting and comparison", f"{UT} split_list, allclose_report"), ("block assembly", f"{FT} blocks_to_matrix"), ("batch concatenation", f"{FT} _concatenate_batches")],
     ENUM + "configurations up to a deviation bound",
     TRUST + "Bound: 2 deviations.")

prop("C29", "Invalid configurations are rejected with the documented error, valid accepted",
     "Every combination of constructor arguments and operands is either accepted, and then the operator works, or rejected "
     "with the documented exception class: ValueError for unsupported Fisher types, approximations, losses or "
     "inconsistent sizes, NotImplementedError for unsupported losses and layers of the respective operator. Rejection "
     "leaves the model untouched.",
     ["configurations"], "all combinations of constructor arguments of all operators",
     "Tests check one invalid value per argument.",
     [KF, TB, FI, EF, INV], [("argument checks", f"{KF} __init__"), ("block size checks", f"{TB} __init__"), ("damping checks", f"{INV} KFACInverseLinearOperator.__init__")],
     ENUM + "constructor argument combinations",
     TRUST + "Full products of argument values per operator.")

prop("C30", "Default device and data type of the process do not influence any operator",
     "Operators, their exports, adjoints, gradients, KFAC's factors, summaries, inverses and saved states live on the "
     "device and in the data type of the model, and have the same values, whatever torch.set_default_device and "
     "torch.set_default_dtype say while the operator is constructed, used, saved or restored. Moving an operator to the "
     "device it already is on changes nothing.",
     ["configurations", "histories"], "all operators, uses, default devices and data types, and times at which the defaults change",
     "Tests run on one machine with the standard defaults, where a tensor created on the wrong device or in the wrong type is invisible.",
     [TB, FI, GG, HE, JA, KF, KU, INV, AH], [("device and type inference", f"{TB} _infer_device, _infer_dtype"),
      ("would-be gradients", f"{FI} sample_grad_output"), ("Kronecker factors", f"{KF} _compute_kfac")],
     ENUM + "operators, uses and ambient settings, with the meta device standing for a foreign default device",
     TRUST + "Each use is compared with the same use under standard settings (bit-compatible tolerance 1e-9), whose values C01-C28 judge. Bound: one (thorough two) deviations, plus full products for activation Hessians and reference functions.")

prop("C31", "Compositions of operators equal the composition of their dense matrices",
     "Operators of the package can be nested freely with each other and with SciPy's operator algebra: sums, differences, "
     "multiples, products, powers, transposes, sub-matrices, projections, and CG, LSMR or Neumann inverses of curvature "
     "operators, and estimators on top of them, give what the same composition of the dense matrices gives, for every "
     "operand layout, and follow parameter updates made after the composition was built.",
     ["configurations", "histories"], "all nestings up to a depth, all uses, with and without parameter updates in between",
     "Tests use each consumer on one producer; the number of nestings is combinatorial.",
     [TB, SU, INV, OU, TR, DI, NO, HP], [("SciPy export", f"{TB} to_scipy"), ("sub-matrices", f"{SU} SubmatrixLinearOperator"),
      ("inverses", f"{INV} _InverseLinearOperator"), ("projectors", f"{OU} Projector")],
     ENUM + "expressions up to a nesting depth over all operators and combinators",
     TRUST + "Bound: all expressions with up to two (thorough three) combinators; deviations over models, uses and updates.")


prop("C32", "Patch extraction and loss Hessian square roots follow their definition",
     "For every kernel, stride, padding (numeric, 'valid', 'same'), dilation, group count, input shape, data type and memory "
     "layout, extract_patches returns the inputs each output location of the convolution reads (averaged over channel groups), "
     "extract_averaged_patches their mean over locations, also for unequal padding. loss_hessian_matrix_sqrt returns a square "
     "root S with S S^T equal to the loss's Hessian at every output and target. Malformed arguments raise the documented error, arguments are left unchanged.",
     ["inputs", "configurations"], "all convolution hyper-parameters, inputs and layouts; all losses, reductions, outputs and targets",
     "Tests compare a handful of convolutions and outputs; unusual paddings, groups with strides, memory layouts and saturated predictions are not sampled.",
     [KU], [("patches", f"{KU} extract_patches"), ("averaged patches", f"{KU} extract_averaged_patches"),
            ("square roots", f"{KU} loss_hessian_matrix_sqrt")],
     ENUM + "convolution hyper-parameters, inputs, outputs and targets on a grid",
     TRUST + "Bound: the full product of convolution hyper-parameters on small inputs, deviations over layouts.")


def main():
    have = [p for p in P if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in have:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            a["hook_needed"] = None
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a,
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "bin/setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"bin/check {p['id']} --tier quick",
            "thorough_cmd": f"bin/check {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": "model_checking",
            "level_note": p["note"],
        } for p in have],
        "not_applicable": [],
        "notes": "No hooks in /repo: non-determinism is owned at the random generators, user callbacks, data "
                 "containers and choice points of the scenarios. Known and fixed findings: known_findings.json.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
