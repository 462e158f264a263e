"""Writes /verif/properties.jsonl (one JSON object per line). Edit here, then re-run."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=list(over), text=text), why_tests_cant=why,
            anchors=dict(
                files=list(files),
                state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                mechanism=[dict(name=a, where=b) for a, b in mech],
                observe_at=list(observe), hook_needed=hook,
            ),
        )
    )


OBJ = "theseus/core/objective.py"
VEC = "theseus/core/vectorizer.py"
CF = "theseus/core/cost_function.py"
VAR = "theseus/core/variable.py"
NLS = "theseus/optimizer/nonlinear/nonlinear_least_squares.py"
NLO = "theseus/optimizer/nonlinear/nonlinear_optimizer.py"
LAY = "theseus/theseus_layer.py"

prop("C01", "Vectorization never changes what an objective computes",
     "Turning cost-function vectorization on never changes an objective's observable values: at every point of any history of variable updates, error and linearization requests, optimizer steps, failed calls and autograd-mode switches, the error vector (in cost-function order), the weighted jacobians and the retracted variables equal those of the same objective evaluated cost function by cost function on the current tensors. "
     "A linearization served after an update never reflects tensors from before it, and one requested with autograd enabled always carries gradient history (terms whose weight is exactly zero are masked by design and contribute no gradient to that weight entry).",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "for every objective structure (mix of cost-function kinds, shared variables and weights, batch-1 and batched variables, zero weights, robust wrappers), every history of operations on it and every failure inside one of them",
     "test_vectorizer.py compares a few hand-built objectives right after construction; cache invalidation only fails along specific histories (update after failure, no_grad then grad, temporary evaluation between two linearizations), which no test enumerates.",
     [VEC, OBJ, CF, "theseus/core/robust_cost_function.py", "theseus/core/cost_weight.py"],
     [("schema grouping, shared-variable expansion, cache fill and slice", VEC), ("update counting that decides when the cache is stale", OBJ + ":update_vectorization_if_needed"), ("masked evaluation for zero weights", CF + ":masked_jacobians")],
     [("error/jacobian cache", "last vectorized weighted errors and jacobians", VEC), ("per-variable update counters", "what the cache was computed from", OBJ)],
     ["Objective.error()", "weighted jacobians consumed by linearizations", "variable tensors after retract_vars_sequence()"])

prop("C02", "Evaluating an objective temporarily leaves every variable untouched",
     "Evaluating an objective's error or error metric on supplied tensors without asking for a permanent update, computing the errors or jacobians of its cost functions, checking these jacobians at random points, or evaluating a cost function under a batch mask, leaves every variable of the objective (optimization, auxiliary and cost-weight) holding exactly the tensor it held before, and later evaluations and optimizations behave as if the call had not happened. "
     "This holds when the evaluation fails part-way, whatever the point of failure, and for any interleaving with permanent updates.",
     ["histories", "fault_sequences", "crash_points"],
     "for every history of permanent and temporary evaluations, every subset of variables supplied and every failure point inside a temporary evaluation",
     "test_objective.py checks one successful call on optimization variables only; it never supplies auxiliary variables and never fails inside the evaluation.",
     [OBJ, VEC, NLS, "theseus/optimizer/nonlinear/dcem.py"],
     [("save, evaluate, restore", OBJ + ":error"), ("temporary vectorization containers", VEC + ":_vectorize")],
     [("variable tensors", "the values a temporary evaluation must put back", VAR)],
     ["Objective.error / error_metric with also_update=False"])

prop("C03", "A failed call never corrupts later calls",
     "If a forward pass, optimization, error evaluation, linearization or backward pass fails at any point (an exception from user cost code, a callback, the linear solver, or a failed allocation inside a tensor operation), then repeating the call with the same inputs on the same layer gives the same solution, info and gradients as a layer that never failed. "
     "Every cost function, weight and variable also remains usable for copying and dtype conversion.",
     ["crash_points", "fault_sequences", "histories"],
     "for every objective and optimizer configuration, every call in its history, and every failure point inside that call (each tensor operation, each user-callback invocation, each solve)",
     "The tests never inject a failure part-way through a call and then reuse the object; the number of failure points per call is in the thousands.",
     [OBJ, VEC, CF, NLS, LAY, "theseus/geometry/lie_group_check.py"],
     [("cache bookkeeping around the vectorized run", OBJ + ":_vectorization_needs_update"), ("temporary tensors of autodiff cost functions", CF + ":_tmp_tensors"), ("per-call reset of optimizer state", NLS + ":reset")],
     [("optimizer damping / trust region", "state carried between iterations", "theseus/optimizer/nonlinear/")],
     ["TheseusLayer.forward", "Objective.error", "tensor.backward()"])

prop("C04", "Optimizer info tells the truth about the trajectory",
     "After any optimization the reported error and state histories equal the objective's actual error and variable values after each iteration, the best solution, best error and best iteration identify the per-batch-element minimum over that trajectory, the last error is the error of the last iterate, and converged status and converged iteration agree with the recorded errors and tolerances. "
     "Under nonlinear least squares, batch elements reported converged are frozen from then on (until the forced differentiable iterations of implicit and truncated modes), and all of this holds for every optimizer and backward mode, including runs with rejected steps, solver failures and mixed convergence times.",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "for every problem, batch, optimizer, backward mode, set of tolerances, tracking flags and schedule of rejected or failed steps",
     "Tests check err_history monotonically decreasing or best_solution on one convergent problem; the merge of histories across no-grad and grad loops, early break, rejection and failure paths are combinations they do not sample.",
     [NLO, NLS, "theseus/optimizer/nonlinear/dcem.py"],
     [("info bookkeeping per iteration", NLO + ":_update_info"), ("merging of detached and differentiable loops", NLO + ":_merge_infos"), ("convergence mask", NLS + ":_optimize_loop")],
     [("info", "histories, best solution, statuses", NLO)],
     ["NonlinearOptimizerInfo returned by forward()/optimize()", "end-of-iteration callback"])

prop("C05", "Linear-solver failures honour the documented contract",
     "When the linear solver fails at some iteration, an optimization running without gradients does not raise: it warns, reports failure status for the batch, leaves the variables at the last completed iterate and keeps the best solution and histories up to that point; with gradients enabled it raises a runtime error instead (in implicit and truncated modes the detached iterations follow the first rule and the differentiable ones the second; the final implicit step retries a failed plain solve as the optimizer's own step; direct loss minimization runs detached). "
     "A solve that does not fail returns the solution of the (damped) normal equations of every batch element, except for zeros where a solver told to check for singular systems finds one. This holds for every optimizer, linear solver and backward mode, and for failures at any iteration, repeated or intermittent, of any number of the batch elements.",
     ["fault_sequences", "crash_points", "configurations"],
     "for every iteration (or set of iterations) at which the solver fails, every optimizer, solver class, backward mode and autograd mode",
     "A single test makes the first solve fail; failures at a later iteration, in the differentiable tail, or intermittently are never exercised.",
     [NLS, NLO, "theseus/optimizer/linear/linear_optimizer.py", "theseus/optimizer/linear/dense_solver.py"],
     [("exception handling around the solve", NLS + ":_optimize_loop"), ("status merging", NLO + ":_merge_infos"), ("linear optimizer failure path", "theseus/optimizer/linear/linear_optimizer.py")],
     [("status", "per-element outcome", NLO)],
     ["info.status", "RuntimeWarning / RuntimeError", "variable tensors after the call"])

prop("C06", "Adaptive methods never accept a worse iterate and always terminate",
     "Under adaptive Levenberg-Marquardt and Dogleg, for each batch element every step either leaves that element's variables exactly unchanged or moves them without increasing its error and never to a non-finite error, no matter how badly the cost behaves (discontinuities, overflow, NaN at the trial point; step size at most 1; the forced final Gauss-Newton step of implicit mode excepted); damping and trust-region radius stay within their documented bounds. "
     "Every optimization ends within a bounded number of solves proportional to the iteration limit, even if all steps are rejected.",
     ["inputs", "fault_sequences", "histories"],
     "for every cost landscape and fault injected into trial evaluations, every batch mix of accepted and rejected elements, and every parameter setting of the two methods",
     "Tests run smooth benign problems where nearly all steps are accepted; rejection of some elements while others are accepted and non-finite trial errors are not sampled.",
     ["theseus/optimizer/nonlinear/levenberg_marquardt.py", "theseus/optimizer/nonlinear/dogleg.py", "theseus/optimizer/nonlinear/trust_region.py", NLS],
     [("gain ratio test and rejection mask", "theseus/optimizer/nonlinear/levenberg_marquardt.py:_check_accept"), ("trust-region update", "theseus/optimizer/nonlinear/trust_region.py:_complete_step"), ("bounded all-rejected retries", NLS + ":_optimize_loop")],
     [("damping", "per-element damping", "theseus/optimizer/nonlinear/levenberg_marquardt.py"), ("trust region", "per-element radius", "theseus/optimizer/nonlinear/trust_region.py")],
     ["info.err_history / state_history per element", "number of solver calls"])

prop("C07", "A bad batch element cannot change the other elements",
     "Problems in a batch are independent: with Gauss-Newton or fixed-damping Levenberg-Marquardt, each element's trajectory and gradients are those it would have alone, whatever the other elements contain, including NaN, infinite, hugely scaled or zero-weighted data. "
     "If one element makes the batched linear solve fail, the failure is reported for the batch, or (when singular-system checking is requested) contained to the singular elements, which are left unchanged; it is never absorbed silently into other elements' answers. (Excepted: early stopping of the whole batch, whose documented tolerance test may be batch-wide, and the documented batch-wide fallback of the implicit final step.)",
     ["inputs", "fault_sequences"],
     "for every batch composition, every placement and kind of corrupted element, every iteration up to which elements run, dense and sparse solvers, vectorized or not",
     "Tests use healthy homogeneous batches; cross-element leakage needs one corrupted element plus comparison with a run without it.",
     [VEC, OBJ, "theseus/optimizer/linear/dense_solver.py", "theseus/optimizer/autograd/cholmod_sparse_autograd.py", CF, NLS],
     [("batched vectorized evaluation and slicing", VEC), ("singular-element masking", "theseus/optimizer/linear/dense_solver.py:solve"), ("batched retraction with ignore mask", VEC + ":_vectorized_retract_optim_vars")],
     [],
     ["per-element state_history, err_history and gradients"])

prop("C08", "An objective's registry matches its history of adds and erases",
     "After any sequence of adding and erasing cost functions, including additions that are refused, the objective contains exactly the cost functions successfully added and not erased since, exactly the variables they and their weights use, with the right roles, connections, sizes and error dimension, in insertion order. "
     "A refused or redundant addition changes nothing, and an optimizer or layer built before the structure changed refuses to run rather than compute with stale structure.",
     ["histories", "fault_sequences"],
     "for every sequence of add (new, duplicate, name-clashing, wrong dtype, dual-role, weight with optimization variables) and erase operations over shared variables and weights",
     "Tests add and erase a handful of cost functions in fixed orders and do not look at the registry after a refused addition.",
     [OBJ, "theseus/optimizer/optimizer.py", LAY, "theseus/core/theseus_function.py"],
     [("registration with conflict checks", OBJ + ":add"), ("reference-counted removal", OBJ + ":erase"), ("structure version check", "theseus/optimizer/optimizer.py:optimize")],
     [("registries", "name to cost function / variable maps and connection lists", OBJ)],
     ["has_*/get_*/size*/dim queries", "iteration order", "functions connected to a variable"])

prop("C09", "Copies are equivalent and fully isolated",
     "A copy of an objective, cost function, weight or variable, taken at any point of its history, evaluates to the same values, has the same structure (for objectives also the same sharing of variables and weights inside), and shares no mutable state: no later operation on either side (updates, in-place edits, optimization, failure, conversion) is observable on the other. "
     "Optimizing a copy gives the same answer as optimizing the original from the same state.",
     ["histories", "programs"],
     "for every objective structure and every interleaving of operations on the original and on copies (and copies of copies)",
     "Tests copy a freshly built object and compare values once; aliasing only shows after later operations on one side.",
     [OBJ, CF, "theseus/core/theseus_function.py", VAR, "theseus/core/cost_weight.py", "theseus/core/robust_cost_function.py", "theseus/geometry/", "theseus/embodied/"],
     [("objective copy re-linking shared variables and weights", OBJ + ":copy"), ("per-class copy implementations", "theseus/*/*._copy_impl")],
     [],
     ["error() of both sides after each operation", "identity of variables and weights"])

prop("C10", "Variable updates are exact, masked and all-or-nothing",
     "After any sequence of updates an objective's every variable holds exactly the last tensor accepted for it, element by element under the ignore mask (masked batch elements keep their previous value), variables not named keep theirs, and the batch size equals the common broadcast batch of all tensors. An update replaces tensors: it never writes into a tensor the caller or the variable held before. "
     "An update refused for a wrong shape, dtype, rank or inconsistent batch never leaves a variable with a partially written value, names unknown to the objective change nothing, and the next valid update fully restores normal operation.",
     ["histories", "fault_sequences", "inputs"],
     "for every sequence of valid, masked, partially invalid and inconsistent updates over every variable type, applied through the objective, the layer and variables directly",
     "Tests update once or twice with hand-written tensors; sequences mixing masks, batch-size changes and refused updates are not covered.",
     [VAR, OBJ, "theseus/geometry/manifold.py", VEC],
     [("shape/dtype validation and masked write", VAR + ":update"), ("batch-size resolution", OBJ + ":_resolve_batch_size")],
     [("variable tensor", "current value", VAR), ("batch size", "resolved batch of the objective", OBJ)],
     ["Variable.tensor", "Objective.batch_size", "ValueError on refusal"])

prop("C11", "Independent problems in different threads do not interfere",
     "Threads that build, evaluate, optimize and differentiate their own objectives, layers and robot models get, under every interleaving, exactly the results each would get running alone, including when another thread fails, changes its own modes or raises from user code in the middle. "
     "Automatically assigned names never collide across threads.",
     ["schedules", "fault_sequences", "programs"],
     "for every set of per-thread programs and every preemption schedule at source-line granularity inside the library, with failures injected in some threads",
     "The test suite is single-threaded.",
     ["theseus/geometry/lie_group_check.py", "theseus/geometry/utils.py", VAR, "theseus/core/theseus_function.py", VEC, "torchlie/torchlie/functional/check_contexts.py", "torchlie/torchlie/lie_tensor.py", "torchkin/torchkin/forward_kinematics.py"],
     [("thread-local contexts", "theseus/geometry/lie_group_check.py"), ("atomic id counters", VAR), ("no module-level mutable caches", "theseus/, torchlie/, torchkin/")],
     [("contexts", "thread-local modes", "theseus/geometry/lie_group_check.py")],
     ["per-thread results compared with a solo run"])

prop("C12", "Scoped modes end with their scope",
     "Every scoped mode (Lie-group checks on or off, silenced warnings, tangent-space tensor operations, Euclidean treatment of Lie tensors, extra checks) is in force exactly inside its scope, nests correctly, is private to its thread and is restored on exit however the scope is left, including by an exception or interrupt and including scopes opened internally by optimization or jacobian computation. "
     "After any history of calls that succeed or fail, validity checks behave as they did before it.",
     ["histories", "fault_sequences", "schedules"],
     "for every nesting and interleaving of scopes across threads, every exit path, and every library call that opens a scope internally and fails inside it",
     "Tests enter and leave one context normally in a single thread.",
     ["theseus/geometry/lie_group_check.py", "theseus/geometry/utils.py", "torchlie/torchlie/functional/check_contexts.py", "torchlie/torchlie/lie_tensor.py", "theseus/optimizer/optimizer.py", CF],
     [("context managers saving and restoring thread-local state", "theseus/geometry/lie_group_check.py"), ("scopes opened by optimize() and vmap jacobians", "theseus/optimizer/optimizer.py")],
     [("thread-local flags", "current modes", "theseus/geometry/lie_group_check.py")],
     ["acceptance/normalization of invalid group tensors", "warnings emitted", "result of in-place operations"])

prop("C13", "Randomness comes only from the generator supplied",
     "Every random construction that accepts a generator draws all its randomness from it: equal generator states give equal results whatever happens to the global random state or in other threads, and the global state is left untouched. "
     "Stochastic components that use the global generator (sampling-based optimization, posterior samples, jacobian self-checks) are a function of the seed and inputs only, and re-running after a failure with the same seed gives the same result.",
     ["schedules", "histories", "fault_sequences"],
     "for every interleaving of random constructions with global draws and other threads, every group type, size and dtype, and failures between draws",
     "Tests check shapes and validity of random elements and once that a generator is accepted; they never perturb the global stream between or during draws.",
     ["theseus/geometry/", "torchlie/torchlie/functional/", "torchlie/torchlie/lie_tensor.py", "theseus/optimizer/nonlinear/dcem.py", LAY, "theseus/utils/utils.py"],
     [("generator threaded through rand/randn", "theseus/geometry/*.rand, torchlie/functional/*.rand"), ("sampling", "theseus/optimizer/nonlinear/dcem.py")],
     [],
     ["returned tensors", "torch/numpy/python global random states before and after"])

prop("C14", "Gradients do not depend on the layer's history",
     "The gradient of any loss of a layer's output with respect to its input tensors depends only on that call's inputs and settings: reusing the layer for other calls before, between forward and backward, or after, in any order and any mix of backward modes (unrolled, implicit, truncated, direct loss minimization), changes no gradient. "
     "In particular delaying a backward pass past later calls, or retrying it after a failure, yields the gradient a fresh layer would give.",
     ["histories", "schedules", "configurations"],
     "for every sequence of forward, backward, update and failed calls on one layer with changing inputs, batch sizes, backward modes and solvers",
     "Tests run forward then backward once per layer, so state shared between calls (cached backward problem, factorization reuse, cached jacobians) is never observed.",
     [LAY, NLS, VEC, "theseus/optimizer/autograd/cholmod_sparse_autograd.py", "theseus/optimizer/autograd/common.py"],
     [("backward problem cached on the layer for direct loss minimization", LAY + ":forward"), ("saved factorizations for sparse backward", "theseus/optimizer/autograd/cholmod_sparse_autograd.py")],
     [("cached backward objective and optimizer", "reused across calls", LAY)],
     ["tensor.grad of inputs after backward()"])

prop("C15", "Damaged or interrupted dataset files are never silently wrong",
     "Pose-graph, bundle-adjustment and robot-description data written and then read back on faithful storage describe the same problem (same vertices, edges, measurements, weights and topology to written precision), whatever write and read chunking the storage uses. "
     "If storage fails or is full, the save or load raises an error. If the file was torn or zero-filled from any byte on by a crash, loading either raises an error or yields an exact prefix of the stored records (only the last number of the last record may be cut short where the tear lies inside it); it never yields values that were not in the file, and a failed save or load has no effect on later ones.",
     ["crash_points", "fault_sequences", "inputs"],
     "for every generated problem, every crash or truncation point in the write, short reads and writes, I/O errors and full disks during load and save",
     "Tests only read one intact g2o file or none; no write-read round trip and no storage fault is tested.",
     ["theseus/utils/examples/pose_graph/dataset.py", "theseus/utils/examples/bundle_adjustment/data.py", "torchkin/torchkin/robot.py", "theseus/utils/examples/motion_planning/misc.py"],
     [("g2o reader/writer", "theseus/utils/examples/pose_graph/dataset.py"), ("BAL reader/writer", "theseus/utils/examples/bundle_adjustment/data.py"), ("URDF loading", "torchkin/torchkin/robot.py")],
     [("file contents", "durable prefix after a crash", "simulated storage")],
     ["tensors returned by loaders", "exceptions"])

prop("C16", "Iterates stay on their manifold",
     "Whatever steps are applied, however many and however large, and whatever steps are masked, rejected or fail, every rotation and rigid-motion variable remains a valid group element after each update by an optimizer, by retraction, or by in-place tangent-space steps on Lie tensors, up to rounding that does not grow out of proportion to the number of steps, and each step arrives at the element the group's exponential, composition, inverse and logarithm define. "
     "A variable constructed from an invalid tensor while checks are on is either refused or normalized to a valid element; valid data is taken as it is.",
     ["histories", "fault_sequences", "inputs"],
     "for every sequence of retractions, optimizer iterations and in-place torch-optimizer steps with arbitrary finite step sizes, masks and failures, in single and double precision",
     "Tests retract once with small random steps.",
     ["theseus/geometry/so2.py", "theseus/geometry/so3.py", "theseus/geometry/se2.py", "theseus/geometry/se3.py", "theseus/geometry/manifold.py", "theseus/geometry/utils.py", "torchlie/torchlie/lie_tensor.py", VEC],
     [("retraction through the exponential map", "theseus/geometry/lie_group.py"), ("validity check and normalization at construction", "theseus/geometry/manifold.py:_check_tensor"), ("in-place tangent steps", "torchlie/torchlie/lie_tensor.py:add_")],
     [],
     ["orthonormality, unit norm and determinant of variable tensors at every step", "value of every variable after each step"])

prop("C17", "Answers do not depend on performance knobs",
     "The same history of calls gives the same iterates, errors and gradients (to numerical tolerance) whichever performance-only choices are made: vectorized or not, dense or sparse linearization, Cholesky, LU or sparse factorization, variable elimination order, autodiff mode of user costs, and order in which cost functions were registered. "
     "This stays true when the run is reused across calls, batch sizes and intermittent failures.",
     ["configurations", "histories", "inputs"],
     "for every problem and call history, and every combination of the listed knobs drawn per run",
     "Tests fix the knobs and compare at most one pair on one problem and one call.",
     [VEC, "theseus/optimizer/dense_linearization.py", "theseus/optimizer/sparse_linearization.py", "theseus/optimizer/linear/", "theseus/optimizer/variable_ordering.py", CF, "theseus/optimizer/autograd/"],
     [("column and block bookkeeping of linearizations", "theseus/optimizer/sparse_linearization.py"), ("solver reuse of symbolic factorization", "theseus/optimizer/linear/cholmod_sparse_solver.py")],
     [("symbolic factorization", "reused across solves", "theseus/optimizer/linear/cholmod_sparse_solver.py")],
     ["solutions, state/err histories and gradients per knob setting"])

prop("C18", "Runs are bit-for-bit repeatable",
     "Repeating the same program with the same inputs and seeds gives bit-for-bit identical solutions, infos and gradients: in the same process after other work, on the same objects after other calls, in another thread, and in a fresh interpreter with a different hash seed. "
     "Nothing observable depends on object identity, hash order, wall-clock time or how many objects were created before.",
     ["schedules", "configurations", "histories"],
     "for every program, amount and kind of unrelated prior work, hash seed and clock behaviour",
     "Tests run once under a fixed hash seed and assert with tolerances.",
     [VEC, OBJ, VAR, "theseus/core/theseus_function.py", NLS, "theseus/utils/utils.py", "torchkin/torchkin/robot.py"],
     [("insertion-ordered registries", OBJ), ("identity-free grouping of cost functions", VEC)],
     [],
     ["bytes of returned tensors"])

prop("C19", "Converting dtype at any time is equivalent to building in that dtype",
     "Converting a layer or objective to another floating dtype at any point of its history (before or after optimizing, after a failure, with vectorization on or off, repeatedly) leaves it behaving as one built in that dtype from the converted tensors: no cached value, auxiliary tensor, internal container, weight or backward problem keeps the old dtype or old contents. "
     "All outputs are then in the new dtype and subsequent calls succeed.",
     ["histories", "configurations", "fault_sequences"],
     "for every objective structure, every position of conversions within a history of calls, all optimizers and backward modes",
     "Tests convert once, immediately after construction.",
     [OBJ, CF, VEC, LAY, "theseus/core/cost_weight.py", "theseus/core/robust_cost_function.py", "theseus/embodied/", "theseus/geometry/"],
     [("conversion of cost functions, weights and vectorized containers", OBJ + ":to"), ("conversion of autodiff temporaries", CF + ":to")],
     [],
     ["dtype and values of errors, solutions, gradients after conversion"])

prop("C20", "Robot kinematics functions are pure and reentrant",
     "Forward-kinematics and jacobian functions obtained from a robot model return, for given joint values, the same poses and jacobians however often, in whatever order, batch size and thread interleaving they and their siblings for other robots or link subsets are called, and whether or not earlier calls failed; they never modify their inputs or the robot. "
     "Requested links come back in the requested order, and a subset request agrees with the full one. Gradients of first and second order taken through the poses, at once, later, or repeatedly, do not depend on which links were requested or on what was called in between.",
     ["schedules", "histories", "fault_sequences"],
     "for every robot tree, link subset, sequence and interleaving of calls with failures injected inside some",
     "Tests evaluate one robot once per function.",
     ["torchkin/torchkin/robot.py", "torchkin/torchkin/forward_kinematics.py", "torchkin/torchkin/joint.py", "theseus/embodied/kinematics/kinematics_model.py"],
     [("closures over a precomputed link traversal", "torchkin/torchkin/forward_kinematics.py"), ("robot tree construction", "torchkin/torchkin/robot.py")],
     [],
     ["poses, jacobians, input tensors and robot state after each call"])

prop("C21", "Timing statistics follow the clock and survive failures",
     "Each timed section records exactly the clock time that elapsed between its start and end under its own label, once, in order; inactive or deactivated sections record nothing, and a section left by an exception is recorded and does not disturb later sections.",
     ["schedules", "fault_sequences", "histories"],
     "for every sequence of timed, deactivated and failing sections and every behaviour of the clock between them (stalls, jumps)",
     "No test drives the timer, and none controls the clock.",
     ["theseus/utils/utils.py"],
     [("start/end bookkeeping", "theseus/utils/utils.py:Timer")],
     [("stats", "label to list of durations", "theseus/utils/utils.py")],
     ["Timer.stats(), Timer.elapsed_time"])

prop("C22", "Process-wide numeric options are in force exactly as last accepted",
     "After any sequence of set_global_params calls of theseus and torchlie, refused calls and resets, every group operation, input check and cost function, including objectives built and used earlier, behaves as in a fresh process given the options accepted last (shipped values after a reset); a refused call changes no option.",
     ["histories", "fault_sequences"],
     "for every history of accepted, refused and interrupted option changes and every object alive across them",
     "The single test sets options once and checks that results change; nothing refuses, resets, converts or reuses objects across a change.",
     ["theseus/global_params.py", "torchlie/torchlie/global_params.py", "theseus/embodied/misc/local_cost_fn.py"],
     [("options objects shared by the process", "theseus/global_params.py"), ("cached approximate jacobians", "theseus/embodied/misc/local_cost_fn.py")],
     [("options", "name to value", "torchlie/torchlie/global_params.py")],
     ["results of operations and checks, linearization of objectives, acceptance of options"])

prop("C23", "Variable orderings stay consistent through every edit",
     "After any sequence of append, extend and remove calls, refused ones included, a variable ordering reports for each variable exactly its position, contains exactly the variables added and not removed, and is complete exactly when all optimization variables are in it; dense and sparse linearizations, retractions and optimizers built on it place every variable's columns accordingly.",
     ["histories", "fault_sequences"],
     "for every history of edits of an ordering and every objective",
     "Tests append and remove once and never use an edited ordering.",
     ["theseus/optimizer/variable_ordering.py", "theseus/optimizer/linearization.py", "theseus/optimizer/dense_linearization.py", "theseus/optimizer/sparse_linearization.py"],
     [("list of variables and index by name", "theseus/optimizer/variable_ordering.py"), ("column starts", "theseus/optimizer/linearization.py")],
     [("_var_name_to_index", "name to position", "theseus/optimizer/variable_ordering.py")],
     ["index_of, iteration, complete; A, b, deltas and retracted values"])

prop("C24", "Gaussians on manifolds change as a whole or not at all",
     "An update of a ManifoldGaussian that is refused or fails leaves all its means and its precision as they were, a successful one replaces all of them; copies and their originals never influence each other; conversions apply to means and precision alike; projecting to and from a tangent space changes no argument and is mutually inverse.",
     ["histories", "fault_sequences"],
     "for every history of updates, failures, conversions and copies over every combination of groups",
     "Tests perform single valid and invalid updates and do not look at the state left behind.",
     ["theseus/optimizer/manifold_gaussian.py"],
     [("means updated one by one, precision checked", "theseus/optimizer/manifold_gaussian.py:ManifoldGaussian.update")],
     [("mean, precision", "list of variables and matrix", "theseus/optimizer/manifold_gaussian.py")],
     ["tensors of the means and the precision of every member after each call"])

prop("C25", "Signed distance fields answer from their current data",
     "Every distance and gradient a signed distance field reports, and every error and jacobian of a collision cost function built on it, is the bilinear interpolation of the origin, cell size and grid in force: the last accepted replacement, conversion or variable update, in full; refused data changes nothing, copies are independent, queries change no argument, and points outside the grid get the boundary value.",
     ["histories", "fault_sequences"],
     "for every history of replacements, refused replacements, variable updates, conversions, copies and queries, over every grid size and batch size",
     "Tests query one freshly built field and never replace its data.",
     ["theseus/embodied/collision/signed_distance_field.py", "theseus/embodied/collision/collision2d.py", "theseus/embodied/collision/eff_obj_contact.py"],
     [("data, and sizes derived from it", "theseus/embodied/collision/signed_distance_field.py:SignedDistanceField2D.update_data")],
     [("origin, cell_size, sdf_data, _num_rows, _num_cols", "variables and derived sizes", "theseus/embodied/collision/signed_distance_field.py")],
     ["signed_distance, error, jacobians"])

prop("C26", "A Lie tensor holds what its history of operations gives",
     "After any sequence of constructions, compositions, inverses, retractions, slices, conversions, in-place replacements and descent steps, scopes, refused and interrupted operations, every LieTensor has the type, dtype, gradient flag and group element its own history gives; tangent-space gradients, taken at once or later, are the derivative at the value the function was evaluated at, or are refused; an operation that fails or is interrupted changes no tensor (an in-place one is all or nothing), and refused kinds of operation stay refused outside as_euclidean.",
     ["histories", "fault_sequences"],
     "for every history of operations over pools of SO3 and SE3 tensors, batch sizes and precisions, with an interrupt at every library source line",
     "Tests apply one operation to a fresh random element; they never mix in-place steps, retained graphs, refusals and interrupts on shared tensors.",
     ["torchlie/torchlie/lie_tensor.py", "torchlie/torchlie/types.py", "torchlie/torchlie/functional/se3_impl.py", "torchlie/torchlie/functional/so3_impl.py"],
     [("in-place update by retraction", "torchlie/torchlie/lie_tensor.py:LieTensor.add_"), ("operator dispatch", "torchlie/torchlie/lie_tensor.py:LieTensor.__torch_function__")],
     [("tensor data and ltype", "the group element", "torchlie/torchlie/lie_tensor.py")],
     ["value, type, dtype, gradients"])

# ---- properties this technique cannot address (pure functions of their input) ----
prop("N01", "Exponential and logarithm maps are mutually inverse",
     "For every supported Lie group, exp followed by log and log followed by exp return the starting value over the principal domain, including near zero and near pi, in both precisions.",
     ["inputs"], "for every tangent vector and group element",
     "Tests sample random elements; the claim is over a continuum with delicate branches near zero and near pi.",
     ["torchlie/torchlie/functional/so3_impl.py", "torchlie/torchlie/functional/se3_impl.py", "theseus/geometry/so2.py", "theseus/geometry/se2.py"],
     [("closed-form maps with Taylor branches", "torchlie/torchlie/functional/")])
prop("N02", "Analytic jacobians equal the derivative of the error",
     "For every built-in cost function and group operation, the analytic jacobian equals the derivative of the corresponding error or operation with respect to a right tangent perturbation.",
     ["inputs"], "for every value of every variable of every cost function and operation",
     "Tests compare with numeric derivatives at random points only.",
     ["theseus/embodied/", "theseus/geometry/", "torchlie/torchlie/functional/"],
     [("hand-written jacobians", "theseus/embodied/")])
prop("N03", "Robust losses and their linearizations are consistent",
     "Each robust loss is non-negative, monotone, close to the squared norm near zero, and its linearization is its derivative for every radius.",
     ["inputs"], "for every squared norm, radius and annealing value",
     "Tests sample random points.",
     ["theseus/core/robust_loss.py"], [("closed-form losses", "theseus/core/robust_loss.py")])
prop("N04", "Forward kinematics matches the robot description",
     "For every robot description and joint configuration, link poses equal the product of joint transforms along the tree, and jacobians are its derivative.",
     ["inputs"], "for every URDF and joint vector",
     "Tests compare one arm against a recorded dataset.",
     ["torchkin/torchkin/robot.py", "torchkin/torchkin/forward_kinematics.py", "torchkin/torchkin/joint.py"],
     [("tree traversal", "torchkin/torchkin/forward_kinematics.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
