S = ("Seeded sampling of histories, schedules and faults; a clean batch is evidence, not proof. Trusts torch/CHOLMOD kernels and the "
     "harness's own reference constructions. ")
NOTE = {
    "C01": ("random call histories with faults at every tensor op and user call, refinement against the unvectorized objective",
            S + "User cost functions are pure functions of their variables; batch-1 poses with batched collision or pushing data are excluded (they raise) (instances of one class share non-variable state; see KF1) and never take one variable twice; gradient with respect to a weight entry that is exactly zero is excluded (zero-weighted terms are masked by design)."),
    "C02": ("temporary evaluations with refused inputs and mid-evaluation faults against a shadow objective that never saw them", S),
}
NOTE.update({
    "C03": ("fault at every kind of failure point of a layer call (tensor op, user call, solve), then the same call repeated and compared with a never-failed layer", S),
    "C04": ("optimizer runs with rejected/failed/poisoned solves; info checked against an independent recording of every iterate by the end-of-iteration callback", S),
    "C05": ("solver failures scheduled at arbitrary solves; outcome compared with the documented contract and a shadow run", S),
    "C06": ("hostile landscapes, scaled and NaN steps, per-element acceptance invariants on every iteration and a solve budget", S),
    "C07": ("corrupted batch elements and failing solves; every healthy element compared with its solo run", S),
    "C08": ("random add/erase/refusal histories with faults against a small reference registry", S + "See KF2 for the one recorded finding."),
})
NOTE.update({
    "C09": ("interleaved operations and faults on a family of originals and copies, every member shadowed bit for bit", S + "Sharing is claimed for objective copies; a lone cost function copy has its own variables."),
    "C10": ("histories of valid, masked, refused and interrupted updates against a numpy model of every variable", S + "Masks have the objective's batch size, as documented."),
})
NOTE.update({
    "C11": ("simulated threads: real threads under a seeded line/bytecode-level preemptive scheduler, each result compared with the same program run alone; the recorded schedule is the replay", S + "Preemption inside C++ kernels is not simulated; threads share no objective, only the library's own global state and read-only inputs."),
    "C12": ("random trees of nested scoped modes with faults and exits by exception, against a reference stack of mode values and behaviour probes", S + "One scope object is not entered twice at the same time."),
})
NOTE.update({
    "C13": ("global random streams moved between and during every draw, failures inside draws, simulated threads, and re-runs of stochastic components after other calls and failures", S + "CPU generators only. See KF3 for the one recorded finding."),
})
NOTE.update({
    "C14": ("gradient-taking histories of one layer (faults, other calls, interleaved backward passes) compared with the gradients of a layer that never saw them", S + "Gradients are compared to a relative tolerance; loss functions are smooth."),
})
NOTE.update({
    "C20": ("histories and simulated threads over shared kinematics functions with interrupted calls and loads, delayed backward passes and overwritten results, against an independent kinematics model and newly loaded robots", S + "Supported joint types only; poses near zero angles are compared to the accuracy of the truncated series."),
})
NOTE.update({
    "C19": ("conversions (some interrupted and reissued) scheduled anywhere in histories of calls, failures and held graphs, against layers built in the new dtype from the converted tensors", S + "Single and double precision on CPU; in single precision only one-step results are compared, dtypes always."),
})
NOTE.update({
    "C18": ("whole programs repeated under other prior work, counters, threads, garbage collection, jumping clocks, filled uninitialised memory and a restarted interpreter with another hash seed; every bit and order compared", S + "One machine, same library versions, one intra-operator thread."),
})
NOTE.update({
    "C17": ("the same history of calls and failures executed under several settings of every performance knob; outcomes, iterates, errors and gradients compared to the measured accuracy of the problem", S + "Double precision; histories whose results are not determined to 1e-7 by perturbed re-runs are not compared."),
})
NOTE.update({
    "C21": ("sections (deactivated, failing, interrupted, abandoned, closed generators, interleaved timers) under simulated CPU, wall and device clocks that stall and jump, against a reference record", S + "Sections of one timer are not nested. GPU timing runs against simulated events."),
})
NOTE.update({
    "C16": ("histories of group operations, retractions, optimizations and in-place torch-optimizer steps with extreme step sizes, masks and failures; after every step validity and value are compared with a numpy model of the group, construction from damaged data included", S + "Rounding may accumulate linearly with steps; the truncated series around zero angles is allowed its design error."),
})
NOTE.update({
    "C15": ("histories of saves and loads on simulated in-memory storage with short transfers, I/O errors, a full disk, interrupts, crashes in mid-save and torn or zero-filled tails; every load compared record by record with the problem saved", S + "Text formats carry no checksum: the last number of a torn file is not compared. 2D pose graphs, robot descriptions and tactile recordings are written by the harness."),
})
NOTE.update({
    "C22": ("histories of accepted, refused and interrupted option changes and resets with group operations, checks and a living objective in between, each compared with a process forked before the history and given the options a reference model says are in force", S + "Group operations are compared bit for bit, linearizations to rounding."),
})
NOTE.update({
    "C23": ("histories of edits, refused edits and edits cut short on variable orderings compared with a reference list; linearizations, retractions and steps built on them compared block by block with an objective built from scratch", S + "An ordering is not edited while a linearization built on it is in use."),
    "C24": ("families of Gaussians and copies under updates, refused and interrupted updates, conversions and in-place edits, each member compared bit for bit with a shadow record; tangent-space round trips", S + "Sharing of the tensors handed to update() is not claimed either way."),
})
NOTE.update({
    "C25": ("histories of replaced, refused, updated, converted and copied field data with queries and collision cost functions in between, every answer compared with a numpy bilinear model of the data in force", S + "Points on cell borders are not queried."),
    "C26": ("histories of operations, refusals, interrupted operations, in-place steps and retained backward passes on a pool of Lie tensors; every member compared with a float64 numpy model, unchanged ones bit for bit, gradients with central differences of the model", S + "Rotation angles of logarithms stay away from zero and half a turn."),
})
