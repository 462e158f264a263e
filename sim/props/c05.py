"""C05 - linear-solver failures honour the documented contract."""
import warnings

import torch

from .. import hist, layers as ly, world as wd
from ..core import StepBudget
from ..faults import HOOK, PLAN
from . import c04

RUNS = {"quick": 620, "thorough": 36000}
RULE = ("a run is (one in eight) 1-4 solves of a LinearOptimizer, or 1-3 optimizations of one layer (Gauss-Newton, LM, adaptive LM, Dogleg x dense Cholesky / LU / CHOLMOD x backward modes x "
        "autograd on/off) in which chosen solves fail (one, several, all, at any iteration or in the differentiable tail), or the problem itself "
        "becomes singular; the failure schedule seen by the solver decides which outcome the contract requires; non-trivial if a solve failed")
REAL = ["TheseusLayer", "GaussNewton, LevenbergMarquardt, Dogleg", "CholeskyDenseSolver, LUDenseSolver, CholmodSparseSolver", "Objective / Vectorize / cost functions"]
STUB = ["user cost functions and weights", "linear solver failures (raised by a subclass of the real solver, or by the real solver on singular systems)"]
ASSUMPTIONS = ["the documented fallback of the implicit final step (a failed plain solve retried as the optimizer's own step) is not a failure",
               "implicit/truncated modes still run their differentiable iterations after a failure in the detached ones"]


def gen(rng, tier, i):
    singular = rng.p(0.25)
    if rng.p(0.12):
        return gen_lin(rng, singular)
    spec = wd.gen_spec(rng, nextra=(0, 5), nv=(1, 3), optb1=rng.choice([0, 0, 0, 1.0]), optmix=rng.choice([0, 0, 0.3]), zero=0.6 if singular else 0.1, prior=not singular, robust=0.2)
    cfg = ly.gen_cfg(rng, algs=["gn", "gn", "lm", "lma", "dogleg"], tol=rng.wchoice([("none", 6), ("default", 1), ("loose", 1)]),
                     max_it=rng.choice([1, 2, 3, 5, 7]))
    calls = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        c = ly.gen_call(rng, spec, cfg, modes=["unroll", "unroll", "implicit", "implicit", "truncated", "truncated", "dlm"], rgp=0.2)
        c["g"] = rng.p(0.4)
        c["plan"] = gen_plan(rng, cfg, c)
        calls.append(c)
    return dict(spec=spec, cfg=cfg, calls=calls)


def gen_plan(rng, cfg, call):
    n = cfg["max_it"] * (2 if cfg["alg"] in ("lma", "dogleg") else 1) + 1
    k = rng.wchoice([("one", 5), ("some", 3), ("all", 1), ("tail", 2), ("nan", 1.5), ("none", 1)])
    plan = dict(fail=[], scale={}, nan={}, linalg=rng.p(0.5))
    if k == "one":
        plan["fail"] = [rng.randint(1, n)]
    elif k == "some":
        plan["fail"] = sorted({rng.randint(1, n) for _ in range(rng.choice([2, 3]))})
    elif k == "all":
        plan["fail"] = list(range(rng.randint(1, n), 3 * n))
    elif k == "tail":
        plan["fail"] = [cfg["max_it"], cfg["max_it"] + 1] if rng.p(0.5) else [cfg["max_it"]]
    elif k == "nan":
        plan["nan"] = {str(rng.randint(1, n)): rng.randint(0, 3)}
    if cfg["alg"] in ("lma", "dogleg") and rng.p(0.3):
        plan["scale"] = {str(rng.randint(1, n)): [100.0, 100.0, 1.0, 100.0]}
    return plan


def run(case, ctx):
    spec, cfg = case["spec"], case["cfg"]
    ctx.state(wd.describe(spec), cfg)
    HOOK.reset()
    if cfg["alg"] == "lin":
        return run_lin(case, ctx)
    W = ly.build(spec, cfg, faulty=True)
    for i, call in enumerate(case["calls"]):
        ctx.step()
        one(ctx, W, call, i)
        if ctx.viol:
            return
    PLAN.reset()


def one(ctx, W, call, i):
    cfg = W.cfg
    c04.install(call["plan"])
    PLAN.expect_failures = False
    PLAN.linalg = bool(call["plan"].get("linalg"))
    tr = c04.Trace(W)
    modes = []

    def obs(n):
        modes.append((n, torch.is_grad_enabled(), len(tr.cb), tr.snap()))
        tr.solve(n)

    PLAN.observer = obs
    PLAN.budget = 3 * cfg["max_it"] + 10
    exc, info, vals = None, None, None
    inp = ly.inputs(W, call)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            inp, vals, info = ly.run(W, call, grad=call["g"], callback=tr.callback, inp=inp)
        except StepBudget:
            ctx.violate("no-progress", f"more than {PLAN.budget} solves for max_iterations={cfg['max_it']}")
            return
        except Exception as e:  # noqa
            exc = e
    PLAN.observer = None
    if PLAN.verified:
        ctx.probe("solutions_verified", PLAN.verified)
    if not ctx.check(not PLAN.garbage, "unreported-failure", lambda: PLAN.garbage[0], alg=cfg["alg"], mode=call["bm"], solver=cfg["solver"]):
        return
    for k, v in PLAN.fired.items():
        ctx.fault(k, v)
    ok = dict(PLAN.outcomes)
    where = dict(alg=cfg["alg"], mode=call["bm"], solver=cfg["solver"])
    solves = [(n, ok.get(n, False), g, cb, s) for n, g, cb, s in modes]
    natural = PLAN.failed - PLAN.fired.get("solver_failure", 0)
    if natural:
        ctx.fault("singular_system", natural)
    # which failures count
    eff = []
    strict = cfg["abs"] == 0.0 and cfg["rel"] == 0.0
    for j, (n, good, g, cb, s) in enumerate(solves):
        if good:
            continue
        if call["bm"] == "implicit" and j + 1 < len(solves):
            # the final implicit step falls back to the optimizer's own step
            if not (g or strict or eff):
                ctx.probe("ambiguous_phase")
                return
            if g or (not call["g"] and (cb == cfg["max_it"] - 1 or eff)):
                ctx.probe("implicit_fallback")
                continue
        eff.append((n, g, cb, s))
    if not eff:
        if exc is not None:
            if isinstance(exc, RuntimeError) and "dlm" == call["bm"]:
                return
            raise exc
    else:
        ctx.nontriv = True
    warned = [w for w in ws if issubclass(w.category, RuntimeWarning) and "linear optimizer" in str(w.message)]
    det = [e for e in eff if not e[1]]
    dif = [e for e in eff if e[1]]
    ctx.ev(i, [(n, good, g) for n, good, g, _, _ in solves], type(exc).__name__, None if info is None else [int(s.value) for s in info.status])
    ctx.state(call["bm"], len(det), len(dif), exc is not None, len(solves))
    if dif and call["bm"] == "implicit":
        # the plain solve of the final step is retried as the optimizer's own step
        n_diff = sum(1 for x in solves if x[2])
        if not ctx.check(n_diff != 1 or call["g"] is not True, "no-fallback", lambda: f"the plain solve {dif[0][0]} of the final implicit step failed and nothing else was tried", **where):
            return
    if dif:
        ctx.check(exc is not None and isinstance(exc, RuntimeError), "no-error-with-gradients", lambda: f"solve {dif[0][0]} failed with autograd on; outcome {exc!r}", **where)
        ctx.check(dif[0][0] == solves[-1][0], "continued-after-failure", lambda: f"{len(solves)} solves, failure at {dif[0][0]}", **where)
        s = dif[-1][3]
        ctx.check(all(wd.same_bits(W.vars[n].tensor.detach(), s[n]) for n in s), "iterate-lost", "variables are not at the last completed iterate", **where)
        return
    if exc is not None:
        if not det:
            raise exc
        if call["bm"] == "dlm" and "linear optimizer" not in str(exc) and isinstance(exc, RuntimeError) and "[sim]" not in str(exc):
            return
        ctx.violate("raised-without-gradients", f"{type(exc).__name__}: {exc}", **where)
        return
    st = [int(s.value) for s in info.status]
    if det:
        ctx.check(all(s == -1 for s in st), "failure-not-reported", lambda: f"solve {det[0][0]} failed, status {st}", **where)
        ctx.check(len(warned) >= 1, "no-warning", f"{[str(w.message)[:60] for w in ws]}", **where)
        if call["bm"] in ("unroll", "dlm"):
            ctx.check(det[0][0] == solves[-1][0], "continued-after-failure", lambda: f"{len(solves)} solves, failure at {det[0][0]}", **where)
        if solves[-1][0] == det[-1][0]:
            s = det[-1][3]
            ctx.check(all(wd.same_bits(W.vars[n].tensor.detach(), s[n]) for n in s), "iterate-lost", "variables are not at the last completed iterate", **where)
    else:
        ctx.check(not any(s == -1 for s in st), "failure-invented", lambda: f"no solve failed, status {st}", **where)
        ctx.check(not warned, "warning-invented", "", **where)
    if ctx.viol:
        return
    # best solution, histories and last error up to the failure
    c04.verify(ctx, W, call, i, inp, vals, info, tr)


# ------------------------------------------------------------------ the linear optimizer
def gen_lin(rng, singular):
    linear = rng.p(0.4)
    spec = wd.gen_spec(rng, nv=(1, 3), nextra=(0, 4), zero=0.6 if singular else 0.1, prior=not singular, robust=0.0 if linear else 0.2,
                       optb1=rng.choice([0, 0, 1.0]), **(dict(types=["Vector", "Point2", "Point3"], embodied=False, autodiff=False, simcost=False) if linear else {}))
    cfg = dict(alg="lin", solver=rng.choice(["chol", "chol", "lu", "cholmod"]), vec=rng.p(0.7), linear=linear, direct=rng.p(0.4))
    if cfg["solver"] in ("chol", "lu") and rng.p(0.2):
        cfg["check_singular"] = True
    calls = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        c = dict(s=rng.seed_int(), b=rng.choice([None, None, 1, 2, 4]), bm="unroll", g=rng.p(0.4), rg=[v["n"] for v in spec["vars"] if rng.p(0.2) and v["n"] in wd.used_names(spec)])
        c["plan"] = dict(fail=[1] if rng.p(0.4) else [], scale={}, nan={}, linalg=rng.p(0.5))
        if rng.p(0.2):
            c["lf"] = rng.choice(["before", "after"])
        calls.append(c)
    return dict(spec=spec, cfg=cfg, calls=calls)


def run_lin(case, ctx):
    cfg = case["cfg"]
    W = ly.build(case["spec"], cfg, faulty=True)
    for i, call in enumerate(case["calls"]):
        ctx.step()
        c04.install(call["plan"])
        PLAN.expect_failures = False
        PLAN.linalg = bool(call["plan"].get("linalg"))
        inp = ly.inputs(W, call)
        where = dict(alg="lin", solver=cfg["solver"], direct=cfg["direct"])
        exc = info = vals = None
        lin = W.opt.linear_solver.linearization
        if call.get("lf"):
            # the linearization runs out of memory
            def boom(*a, _lin=lin, **k):
                if call["lf"] == "after":
                    type(_lin).linearize(_lin, *a, **k)
                ctx.fault("linearization_failure")
                raise RuntimeError("[sim] out of memory")
            lin.linearize = boom
        with warnings.catch_warnings(record=True) as ws, torch.set_grad_enabled(call["g"]):
            warnings.simplefilter("always")
            try:
                if cfg["direct"]:
                    W.obj.update(inp)
                    info = W.opt.optimize()
                else:
                    vals, info = W.layer.forward(inp)
            except Exception as e:  # noqa
                exc = e
        lin.__dict__.pop("linearize", None)
        if PLAN.verified:
            ctx.probe("solutions_verified", PLAN.verified)
        if not ctx.check(not PLAN.garbage, "unreported-failure", lambda: PLAN.garbage[0], **where):
            return
        for k, v in PLAN.fired.items():
            ctx.fault(k, v)
        n = len(PLAN.outcomes)
        ok = n == 1 and PLAN.outcomes[0][1]
        st = None if info is None else [int(s.value) for s in info.status]
        ctx.ev(i, n, ok, type(exc).__name__, st, [W.vars[v].tensor for v in W.optim])
        ctx.state(ok, call["g"], exc is not None, cfg["direct"])
        kept = all(wd.same_bits(W.vars[v].tensor.detach(), inp[v].detach()) for v in W.optim)
        if not ok:
            ctx.nontriv = True
            if call["g"]:
                ctx.check(isinstance(exc, RuntimeError), "no-error-with-gradients", lambda: f"{exc!r}", **where)
            else:
                ctx.check(exc is None and st == [-1] * len(st), "failure-not-reported", lambda: f"{exc!r} status {st}", **where)
                ctx.check(any("linear optimizer" in str(w.message) for w in ws), "no-warning", "", **where)
                ctx.check(exc is not None or not info.best_solution, "solution-invented", "best solution after a failure", **where)
            ctx.check(kept, "iterate-lost", "variables moved although the solve failed", **where)
        else:
            if exc is not None:
                raise exc
            bs = W.obj.batch_size
            if not ctx.check(st == [1] * bs, "failure-invented", lambda: f"status {st}, batch {bs}", **where):
                return
            ctx.check(not any("linear optimizer" in str(w.message) for w in ws), "warning-invented", "", **where)
            ctx.check(set(info.best_solution) == set(W.optim), "solution-incomplete", lambda: f"{sorted(info.best_solution)}", **where)
            for v in W.optim:
                x = W.vars[v].tensor
                ctx.check(wd.same_bits(info.best_solution[v].detach(), x.detach()), "best-solution", lambda: f"{v} is not the value of the variable", **where)
                if vals is not None:
                    ctx.check(vals[v] is x or wd.same_bits(vals[v].detach(), x.detach()), "returned-values", v, **where)
                ctx.check(x.requires_grad == (call["g"] and x.requires_grad), "grad-without-autograd", v, **where)
            if ctx.viol:
                return
            # one undamped Gauss-Newton step of a fresh optimizer from the same values
            ref = ly.build(case["spec"], dict(cfg, alg="gn", max_it=1, abs=0.0, rel=0.0, step=1.0, vec=False))
            with torch.no_grad(), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                rv, ri = ref.layer.forward({k: x.detach().clone() for k, x in inp.items()})
            if int(ri.status[0].value) != -1 and ly.finite_case(rv.values(), 1e3) and W.dtype == torch.float64:
                lin = th_dense(ref, inp)
                if lin is not None and lin < 1e6:
                    ctx.probe("compared_with_gauss_newton")
                    ctx.check(all(wd.close(W.vars[v].tensor, rv[v], k=max(1.0, lin * 10)) for v in W.optim), "wrong-step",
                              lambda: str({v: wd.diff(W.vars[v].tensor, rv[v]) for v in W.optim}), **where)
                    if cfg["linear"] and not ctx.viol:
                        g = th_grad(W, inp)
                        ctx.probe("optimality_checked")
                        ctx.check(g < 1e-7 * max(1.0, lin), "not-optimal", lambda: f"gradient {g:.3g} after solving a linear problem", **where)
        if ctx.viol:
            return
    PLAN.reset()


def th_dense(W, inp):
    """worst condition number of the normal equations at the initial values"""
    V = wd.build(W.spec, tensors={k: x.detach() for k, x in inp.items()}, dtype=W.dtype_name)
    V.obj.update()
    A, _ = hist.linearize(V.obj)
    s = torch.linalg.svdvals(A)
    if not bool(torch.isfinite(s).all()) or s.shape[1] < A.shape[2] or float(s[:, -1].min()) <= 0:
        return None
    return float((s[:, 0] / s[:, -1]).max()) ** 2


def th_grad(W, inp):
    V = wd.build(W.spec, tensors={n: v.tensor.detach() for n, v in W.vars.items()}, dtype=W.dtype_name)
    V.obj.update()
    A, b = hist.linearize(V.obj)
    g = (A.transpose(1, 2) @ b.unsqueeze(2)).abs().max()
    return float(g / (1 + (A.abs().max() ** 2)))


shrink = ly.shrink
