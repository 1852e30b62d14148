#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long JSON lines stay reviewable)."""
import json, os
P = []
N = "fast_bss_eval/numpy/"
T = "fast_bss_eval/torch/"
TOP = "fast_bss_eval/__init__.py"

def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

IN, CF, HI = "inputs", "configurations", "histories"

p("C01", "NumPy and PyTorch backends compute the same thing",
  "For the same signals and the same options, the NumPy and the PyTorch implementation of every public function compute the same metrics and the same permutation up to floating-point rounding, and reject the same inputs. Both backends expose the same functions with the same parameters, in the same order, with the same defaults.",
  [IN, CF], "all signals, shapes and channel counts; every combination of options; both backends",
  "The tests compare each backend to mir_eval on random square two-channel batches of one with a handful of option sets; no test compares the two backends, and most option combinations (unequal channel counts, iterative solver without permutation, diagonal loading, zero_mean with an offset, large batches) are run by neither.",
  [N + "metrics.py", T + "metrics.py", N + "cgd.py", T + "cgd.py", N + "linalg.py", T + "linalg.py", N + "helpers.py", T + "helpers.py", N + "scale_invariant.py", T + "scale_invariant.py"],
  [("parallel implementations of every routine", "fast_bss_eval/numpy/*.py, fast_bss_eval/torch/*.py"), ("torch compatibility wrappers", T + "compatibility.py")],
  ["return values of the public functions of both backends"])

p("C02", "Metrics equal their bss_eval projection definition",
  "With the direct solver, SDR, SIR and SAR of every estimate/reference pair are those of the bss_eval definition: projections of the estimate onto the span of the first filter_length shifts of that reference (SDR) and of all references (SAR), SIR from their ratio, in decibels 10*log10(c/(1-c)) of the squared cosine c. This holds for every filter length, including 1 and lengths exceeding the number of samples, every channel count, and with or without pairwise evaluation.",
  [IN, CF], "all signals with linearly independent shifts, all lengths, filter lengths, channel counts; direct solver",
  "The tests check one signal length, the default filter length and two channels against mir_eval; circular aliasing, shift-order and block-layout errors that need other lengths, more channels or short signals are never exercised.",
  [N + "metrics.py", T + "metrics.py", N + "linalg.py", T + "linalg.py", N + "helpers.py", T + "helpers.py"],
  [("correlation statistics by FFT", N + "metrics.py compute_stats, compute_stats_2; " + T + "metrics.py likewise"), ("Toeplitz and block-Toeplitz matrices", N + "linalg.py, " + T + "linalg.py"), ("projection coherence and its decibel map", "square_cosine_metrics, sdr_loss, _base_metrics_bss_eval, _coherence_to_neg_sdr")],
  ["sdr, sir, sar returned by the public functions"])

p("C03", "Iterative solver solves the same system as the direct one",
  "With use_cg_iter=n, the distortion filters come from n iterations of preconditioned conjugate gradient applied to exactly the linear systems (same matrix, same right-hand side, same diagonal loading) that the direct solver would solve, for every filter length and channel count. The number of iterations never depends on the data, the residual is recomputed from the current solution every fifth iteration, and the preconditioner is the inverse of the (block-)circulant matrix closest to the (block-)Toeplitz system matrix.",
  [IN, CF], "all signals, filter lengths (not only powers of two), channel counts, iteration counts; both backends",
  "The tests run the iterative solver with filter length 512, two channels and a tolerance of 0.1 dB, so a wrong padding for other lengths, a wrong recurrence masked by fast convergence, or a premature stop go unnoticed.",
  [N + "cgd.py", T + "cgd.py", N + "metrics.py", T + "metrics.py"],
  [("fast operators by circulant embedding", "SymmetricToeplitzOperator, BlockToeplitzOperator in both cgd.py"), ("conjugate gradient recurrence", "conjugate_gradient in both cgd.py")],
  ["metrics returned with use_cg_iter set"])

p("C04", "Inputs are never modified or aliased by results",
  "No public function modifies the arrays or tensors passed to it, whatever the options, dtype or memory layout. No returned array or tensor shares memory with an input or with another returned value.",
  [IN, CF], "all inputs (contiguous or views, every dtype), all options, both backends",
  "No test compares the inputs before and after a call; an in-place update that only happens for one option, dtype or layout stays invisible.",
  [N + "helpers.py", T + "helpers.py", N + "metrics.py", T + "metrics.py", T + "hungarian.py"],
  [("out-of-place mean removal and normalisation", "_remove_mean, _normalize"), ("private copy of the cost matrix before patching", "_linear_sum_assignment_with_inf, hungarian._Hungary")],
  ["the caller's arrays after the call; memory of the returned arrays"])

p("C05", "Floating-point precision of the input is preserved",
  "Metrics are returned in the floating-point precision of the input signals (float32 in, float32 out; float64 in, float64 out) for every combination of options, in both backends and whatever PyTorch's default dtype is. The permutation is returned as 64-bit integers.",
  [IN, CF], "float32/float64 inputs x all options x both backends x torch default dtype",
  "test_dtype only runs the default options; the iterative solver, diagonal loading and a changed torch default dtype are never combined with a dtype assertion.",
  [N + "metrics.py", T + "metrics.py", N + "cgd.py", T + "cgd.py", N + "helpers.py", T + "helpers.py"],
  [("dtype-preserving FFTs and buffers derived from the input", "scipy.fft, new_zeros, zeros_like")],
  ["dtype of the returned values"])

p("C06", "PyTorch results and temporaries stay on the input device",
  "When the inputs are tensors on some device, every intermediate tensor that is combined with them is created on that device and every returned tensor lives on it, for every combination of options. No option makes a call fail because of tensors on different devices.",
  [IN, CF], "all options, any torch device",
  "The machines running the tests have no accelerator, so nothing that is left on the CPU is ever noticed.",
  [T + "metrics.py", T + "cgd.py", T + "helpers.py", T + "linalg.py", T + "hungarian.py"],
  [("new_zeros / device= on every created tensor", T + "*.py")],
  ["device of the returned tensors; absence of device-mismatch errors"])

p("C07", "Losses are differentiable through the whole metric",
  "For PyTorch inputs every returned metric is differentiable with respect to both the estimates and the references, and its gradient is that of the whole computation: no part of the float-valued computation between the inputs and a returned metric is cut out of the graph, for any options. Only the choice of the permutation is excluded, and no in-place operation invalidates values needed by the backward pass.",
  [IN, CF], "all tensors requiring grad, all options",
  "test_grad only calls backward() for a few options and never looks at the gradient, so a detached sub-expression or an in-place overwrite on an untested option passes.",
  [T + "metrics.py", T + "cgd.py", T + "helpers.py", T + "linalg.py"],
  [("no_grad restricted to the assignment", T + "helpers.py _linear_sum_assignment_with_inf")],
  ["gradients of the returned tensors"])

p("C08", "Batch items are independent, for any number of batch dimensions",
  "Inputs may have any number of leading batch dimensions (including none), and the results for one batch item are those obtained by evaluating that item alone. No other item influences them, neither through the values nor through control flow.",
  [IN, CF], "all batch shapes and contents, all options, both backends",
  "The accuracy tests use a batch of one; nothing compares a batched call to per-item calls or uses several batch dimensions.",
  [N + "metrics.py", T + "metrics.py", N + "helpers.py", T + "helpers.py", N + "cgd.py", T + "cgd.py", N + "linalg.py", T + "linalg.py"],
  [("ellipsis indexing and negative axes everywhere", "all numeric routines"), ("per-item assignment loop", "_solve_permutation")],
  ["results of batched versus single calls"])

p("C09", "Output shapes are as documented for all channel counts",
  "Every public function works for fewer, as many or more estimates than references wherever the permutation or pairwise metrics are computed, and returns exactly the documented shapes: one value per matched pair, i.e. (..., min(n_ref, n_est)), for the permuting functions, (..., n_ref, n_est) for pairwise losses, (..., n_channels) otherwise. Without permutation, evaluating unequal channel counts with the full metrics is rejected.",
  [IN, CF], "all n_ref, n_est >= 1, all option combinations, both backends",
  "All metric tests use the same number of references and estimates.",
  [N + "metrics.py", T + "metrics.py", N + "helpers.py", T + "helpers.py", N + "scale_invariant.py", T + "scale_invariant.py"],
  [("transposition for n_ref > n_est and output allocation", "_solve_permutation"), ("channel count assertion", "bss_eval_sources")],
  ["shapes of the returned values"])

p("C10", "Metrics are invariant to the scale of every signal",
  "Multiplying any reference or any estimate, each channel independently, by a nonzero constant leaves every metric, loss and permutation unchanged, for all options including diagonal loading and the iterative solver, as long as the norm of each signal stays above 1e-6.",
  [IN, CF], "all signals and per-channel gains, all options, both backends",
  "The tests only use unit-variance signals, so a missing or misplaced normalisation, or a scale-dependent threshold, is invisible.",
  [N + "helpers.py", T + "helpers.py", N + "metrics.py", T + "metrics.py"],
  [("unit-norm normalisation of both signals along time", "_normalize and its call sites")],
  ["metrics under rescaled inputs"])

p("C11", "zero_mean removes exactly the time average of every signal",
  "With zero_mean=True the results equal those of zero_mean=False on signals from which each channel's own time average has been subtracted, so constant offsets have no influence; with zero_mean=False no mean is removed. This holds for references and estimates, for every filter length and option, in all public functions.",
  [IN, CF], "all signals with offsets, all options, both backends",
  "The tests use zero-mean random signals: with and without the option the results agree, so forgetting it, or centring along another axis, is invisible.",
  [N + "metrics.py", T + "metrics.py", N + "helpers.py", T + "helpers.py"],
  [("_remove_mean before normalisation", "sdr_loss, square_cosine_metrics, square_cosine_metrics_length_one_filter")],
  ["metrics with and without DC offset"])

p("C12", "clamp_db bounds every metric to exactly [-clamp_db, clamp_db]",
  "When clamp_db is given (zero included), every returned SDR, SIR and SAR, positive or as a loss, lies in [-clamp_db, clamp_db]; both bounds are attained when the true value lies outside, and values inside the range are left unchanged. When clamp_db is not given, no finite bound is imposed.",
  [IN, CF], "all signals, all clamp values, all functions and options, both backends",
  "test_clamp_db allows 1 dB of slack, checks only the default function with one clamp value and signals that never reach the lower bound.",
  [N + "helpers.py", T + "helpers.py", N + "metrics.py", T + "metrics.py"],
  [("coherence clamp and its decibel inverse", "_db_clamp_eps, _coherence_to_neg_sdr")],
  ["range of the returned metrics"])

p("C13", "Rounding never turns a metric into NaN",
  "Squared cosines that rounding pushes outside [0, 1] are confined to that range before being converted to decibels, in every function and for every option, so that extreme but valid inputs give a signed infinity or the clamp value and never NaN. Normalising a silent signal never divides by zero.",
  [IN, CF], "all finite signals; coherences rounded below 0 or above 1; silent channels at normalisation",
  "Only one recorded recording (issue 5) is tested with the default options; other functions and options reach the same conversion unguarded by tests.",
  [N + "helpers.py", T + "helpers.py", N + "metrics.py", T + "metrics.py"],
  [("clamp to [0, 1] before the logarithm", "_coherence_to_neg_sdr"), ("lower bound on the norm", "_normalize")],
  ["absence of NaN in returned metrics"])

p("C14", "Permutation is chosen by the documented criterion and applied to all",
  "When a permutation is computed, the estimates are matched to references so as to maximise the total SIR (full metrics) or the total SDR (SDR-only functions and PIT losses), separately for each batch item, and every returned metric is the entry of its own pairwise matrix at that same matching. The returned permutation gives for each returned value the index of the matched estimate (of the matched reference when there are more references than estimates).",
  [IN, CF], "all cost matrices, channel counts and options, both backends",
  "The tests use signals whose SDR and SIR orderings agree and equal channel counts, so a wrong criterion, a sign error, or a metric left unpermuted in the rectangular case is not seen.",
  [N + "helpers.py", T + "helpers.py", N + "metrics.py", T + "metrics.py"],
  [("_solve_permutation with the criterion as first argument", "bss_eval_sources, sdr"), ("gathering of companions at the same indices", "_solve_permutation")],
  ["perm and metrics returned"])

p("C15", "Infinite and NaN metrics are handled safely by the matching",
  "When pairwise metrics contain infinities of one sign, the matching treats them as worse (or better) than any finite total and the metrics returned are the original, unpatched values, including when every entry is infinite. NaN, or infinities of both signs, are rejected with ValueError; the call never hangs and prints nothing.",
  [IN, CF], "all pairwise metric matrices with infinite or NaN entries, both backends",
  "One NaN position is tested; no test has an infinite entry in the matrix, let alone in every entry or with both signs.",
  [N + "helpers.py", T + "helpers.py", T + "hungarian.py"],
  [("placeholder substitution on a copy", "_linear_sum_assignment_with_inf"), ("NaN rejection before the state machine starts", T + "hungarian.py linear_sum_assignment")],
  ["ValueError / returned metrics for degenerate signals"])

p("C16", "PyTorch assignment solver takes only optimality-preserving steps",
  "The PyTorch assignment routine returns a minimum-cost one-to-one assignment for every finite cost matrix, square or rectangular: its steps only subtract constants from whole rows and add or subtract constants to whole rows or columns according to the covering lines, match only zero-cost cells with no shared row or column, augment along alternating paths, and stop only when every row is matched. It works on a private copy and undoes any transposition in the indices it returns.",
  [IN], "all finite cost matrices including ties, repeated values and rectangular shapes",
  "The tests use continuous random matrices where ties never occur and most step sequences are short.",
  [T + "hungarian.py"],
  [("Munkres state machine", T + "hungarian.py _step1.._step6"), ("driver, transposition and index extraction", T + "hungarian.py linear_sum_assignment")],
  ["indices returned by the assignment; permutation returned by the torch metrics"],
  [("cost copy, covers, marks, path", "state of the Munkres algorithm", T + "hungarian.py _Hungary")])

p("C17", "Loss, PIT and scale-invariant variants agree with the base metrics",
  "For all inputs and options: loss functions return the negative of the metric and take (est, ref), metric functions take (ref, est); PIT losses equal the negated permutation-solved SDR; change_sign only flips the sign and return_perm only adds the permutation; pairwise losses equal the loss with pairwise=True; and every si_ function equals its counterpart with filter_length=1.",
  [IN, CF], "all inputs and options of the public functions of both backends",
  "The tests compare variants on nearly noise-free symmetric set-ups with loose tolerances, where swapping est and ref or dropping an option changes nothing visible.",
  [TOP, N + "metrics.py", T + "metrics.py", N + "scale_invariant.py", T + "scale_invariant.py"],
  [("thin wrappers over sdr_loss / sdr / bss_eval_sources", "sdr_pit_loss, pairwise_sdr_loss, si_*")],
  ["relations between the results of the public functions"])

p("C18", "Top-level functions forward everything to the matching backend",
  "Every top-level function selects the PyTorch implementation exactly when its first argument is a torch tensor and the NumPy implementation of the same function otherwise, forwards both signals in the same order and every option unchanged, and returns the backend's result unchanged. Its parameters and defaults agree with the backend function's.",
  [IN, CF], "all public functions, all option values, both input kinds",
  "The tests pass few options through the top level, and the two backends are mostly called with defaults, so a dropped or crossed option is not visible.",
  [TOP, N + "__init__.py", T + "__init__.py"],
  [("_dispatch_backend and the eight public wrappers", TOP)],
  ["result of the top-level function versus the backend function"])

p("C19", "NumPy use does not depend on optional packages",
  "Without PyTorch installed, the package imports and every public top-level function works on NumPy arrays. A missing optional or undeclared dependency makes the import fall back or fail only with ImportError, never with another exception.",
  [CF], "installations without torch, without packaging, without torch_complex",
  "The test environment always has every optional package installed.",
  [TOP, T + "compatibility.py", "setup.py"],
  [("import guard and stand-ins", TOP), ("version helper import", T + "compatibility.py")],
  ["import of the package; calls of the public functions on arrays"])

p("C20", "load_diag is added to the diagonal of every system, nowhere else",
  "When load_diag is given and a linear system is solved, that value is added exactly once to every diagonal coefficient of each system matrix (per-reference and joint) and to nothing else, identically for the direct and the iterative solver; when it is None the systems are unmodified. For filter length 1 it applies to the joint system only.",
  [IN, CF], "all load_diag values, filter lengths, channel counts, solvers, both backends",
  "The tests use load_diag=1e-5 with tolerances of 1e-5 and 1e-2 dB: dropping it, adding it twice or adding it off the diagonal cannot be seen.",
  [N + "metrics.py", T + "metrics.py"],
  [("in-place loading of lag 0 / diagonal before the solve", "sdr_loss, square_cosine_metrics, square_cosine_metrics_length_one_filter")],
  ["metrics with load_diag set"])

p("C21", "Calls are pure: no hidden state, randomness or output",
  "The result of a public function depends only on its arguments: no call changes global or module state, library-wide settings, random generators or its own defaults, none reads such state, and none writes to standard output or files. Repeating or interleaving calls in any order therefore gives the same results.",
  [HI, CF], "all histories of calls, all options, both backends",
  "Tests call functions in a fixed order in a fresh process and capture output.",
  [TOP, N + "metrics.py", T + "metrics.py", N + "helpers.py", T + "helpers.py", N + "cgd.py", T + "cgd.py", N + "linalg.py", T + "linalg.py", T + "hungarian.py", T + "compatibility.py"],
  [("functions over local values only; operator objects created per call", "all modules")],
  ["results of repeated calls; standard output; global settings"])

p("C22", "Each pairwise metric depends only on its own signals",
  "Before matching, the SDR of a pair depends only on that reference and that estimate, and the SIR and SAR of an estimate only on that estimate and the set of references: other estimates never matter. Reordering the estimates or references only reorders the pairwise metrics.",
  [IN, CF], "all signals, channel counts and options, both backends",
  "Tests use two or four channels in one fixed arrangement and never add, drop or reorder channels of a given problem.",
  [N + "metrics.py", T + "metrics.py", N + "cgd.py", T + "cgd.py", N + "linalg.py", T + "linalg.py"],
  [("channel axes carried through einsum/solve without mixing", "compute_stats, compute_stats_2, square_cosine_metrics")],
  ["pairwise metrics under channel reordering"])

p("C23", "Integer recordings are processed in floating point",
  "The NumPy backend accepts integer sample arrays as read from wav files: all arithmetic on sample values is carried out in floating point (no integer overflow, no truncation of intermediate results) and double precision metrics are returned.",
  [IN, CF], "all integer arrays, all options of the NumPy backend",
  "No test passes integer arrays although the documented quick start does.",
  [N + "helpers.py", N + "metrics.py"],
  [("promotion by mean removal / normalisation before any product", N + "helpers.py")],
  ["metrics of integer arrays"])

# ---- not claimed (see MANIFEST not_applicable)
p("C24", "Iterative solver converges close to the direct solution",
  "With around ten iterations the metrics of the iterative solver are within a fraction of a decibel of the direct solver for real recordings.",
  [IN], "signals met in practice, iteration counts",
  "Convergence depends on the conditioning of the particular signals; the tests sample white noise.",
  [N + "cgd.py", T + "cgd.py"], [("circulant preconditioner", "CirculantPreconditionerOperator, BlockCirculantPreconditionerOperator")], ["difference between solvers in dB"])
p("C25", "Rounding error stays small compared to reference implementations",
  "The metrics agree with other bss_eval implementations to a small tolerance in double and single precision, also for ill-conditioned references and very high SDR.",
  [IN], "all signals, both precisions",
  "Rounding error is a property of run-time values; tests sample a few.",
  [N + "metrics.py", T + "metrics.py"], [("unit-norm scaling, direct solve", "sdr_loss, square_cosine_metrics")], ["difference to mir_eval"])
p("C26", "SDR is bounded by SIR and SAR through one decomposition",
  "For every returned pair and every combination of options (direct and iterative solver, loading, clamping, filter length, channel counts), the squared cosine behind the SDR is the product of the squared cosines behind the SIR and the SAR of the same pair, and all three are confined to the same range and converted to decibels by the same function. Since a squared cosine does not exceed one, without loading the SDR therefore never exceeds the SIR nor the SAR of its pair. (The scale-invariant decomposition with a single reference and diagonal loading is excepted: its SDR is not loaded.)",
  [IN, CF], "all signals and options",
  "A relation between three values on all inputs and options; tests compare each with stored values on a few signals.",
  [N + "metrics.py", T + "metrics.py"], [("nested projection subspaces", "square_cosine_metrics")], ["ordering of returned metrics"])
p("C27", "Matching terminates in polynomial time on every matrix",
  "The PyTorch assignment routine terminates for every finite cost matrix, within a number of steps polynomial in its size: it stops as soon as all rows are matched, every augmentation matches one more row, every pass of the zero search covers one more row or ends, and every cost adjustment creates a new uncovered zero while keeping the marked ones. Matrices without rows or columns take no step.",
  [IN], "all finite cost matrices including ties and rectangular shapes",
  "Termination over all inputs; tests time out on a few.",
  [T + "hungarian.py"], [("Munkres state machine", T + "hungarian.py")], ["time taken by the call"])
p("C28", "Computation is faster than reference implementations",
  "The functions run significantly faster than other bss_eval packages and the iterative solver faster than the direct one.",
  [IN, CF], "signals, channel counts, hardware",
  "A statement about run time on hardware.",
  [N + "metrics.py", T + "metrics.py"], [("FFT statistics, iterative solver", "compute_stats, cgd.py")], ["wall-clock time"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
