"""C04 - optimizer information always tells the truth."""
import math

import torch

from .. import layers as ly, world as wd
from ..core import StepBudget
from ..faults import HOOK, PLAN

RUNS = {"quick": 700, "thorough": 40000}
RULE = ("a run is 1-3 optimizations of one layer (all optimizers, backward modes, tolerances, tracking flags) with scripted solver "
        "failures, over-long / NaN / partially bad steps; the recorded info is compared with the trajectory observed from outside "
        "(variables seen at every solve, every callback and at the end) and with errors recomputed on a fresh unvectorized objective; "
        "non-trivial if at least two iterates were recorded")
REAL = ["TheseusLayer", "GaussNewton, LevenbergMarquardt, Dogleg, DCEM", "linear solvers", "Objective / Vectorize / cost functions"]
STUB = ["user cost functions and weights", "linear solver failures and step corruption (subclass of the real solver)"]
ASSUMPTIONS = ["best_iter is the 0-based iteration index that produced the best iterate (0 also when the initial value is best)",
               "freezing of converged elements is claimed for nonlinear least squares, until the differentiable iterations of implicit/truncated modes"]


def gen(rng, tier, i):
    types = ["Vector", "Point2"] if rng.p(0.3) else None
    spec = wd.gen_spec(rng, nextra=(0, 5), nv=(1, 3), optb1=rng.choice([0, 0, 0, 0.5, 1.0]), optmix=rng.choice([0, 0, 0.3]), dtype=rng.wchoice([("float64", 5), ("float32", 1)]), zero=rng.choice([0, 0.2]), types=types,
                       embodied=rng.p(0.7))
    algs = ["gn", "lm", "lma", "lma", "dogleg", "dogleg"]
    if all(v["t"] in ("Vector", "Point2", "Point3") and v["b"] == spec["B"] for v in spec["vars"] if v["role"] == "o"):
        algs += ["dcem", "dcem"]
    cfg = ly.gen_cfg(rng, algs=algs, tol=rng.choice(["none", "loose", "loose", "default", "default"]), max_it=rng.choice([1, 2, 3, 5, 9, 14]))
    if cfg["alg"] != "dcem" and rng.p(0.15):
        cfg["abs"] = rng.choice([1e-2, 1e-1, 1.0])
    calls = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        c = ly.gen_call(rng, spec, cfg, modes=["unroll", "unroll", "implicit", "truncated", "truncated", "dlm"], rgp=0.2,
                        track=["err", "state"] + (["best"] if rng.p(0.85) else []))
        if cfg["alg"] == "dcem":
            c["bm"] = "unroll"
        c["g"] = rng.p(0.4)
        c["plan"] = gen_plan(rng, cfg)
        c["drop"] = [t for t in c["track"] if rng.p(0.25)]
        calls.append(c)
    return dict(spec=spec, cfg=cfg, calls=calls)


def gen_plan(rng, cfg, p=0.5):
    plan = dict(fail=[], scale={}, nan={})
    if cfg["alg"] == "dcem" or not rng.p(p):
        return plan
    n = cfg["max_it"] * 2
    k = rng.choice(["fail", "scale", "scale", "nan", "mix"])
    if k in ("fail", "mix"):
        plan["fail"] = [rng.randint(1, n) for _ in range(rng.choice([1, 1, 2]))]
    if k in ("scale", "mix"):
        for _ in range(rng.choice([1, 2, 4])):
            plan["scale"][str(rng.randint(1, n))] = [rng.choice([1.0, 3.0, 30.0, 1e-3, 0.0, 1e3]) for _ in range(4)]
    if k in ("nan", "mix") :
        plan["nan"][str(rng.randint(1, n))] = rng.randint(0, 3)
    return plan


def install(plan):
    PLAN.reset()
    PLAN.fail_at = set(plan["fail"])
    PLAN.scale_at = {int(k): v for k, v in plan["scale"].items()}
    PLAN.nan_at = {int(k): v for k, v in plan["nan"].items()}


class Trace:
    """what can be seen from outside while the optimizer runs"""

    def __init__(self, W):
        self.W, self.seen, self.cb = W, [], []

    def snap(self):
        return {n: v.tensor.detach().clone() for n, v in self.W.obj.optim_vars.items()}

    def solve(self, n):
        self.seen.append(self.snap())

    def callback(self, opt, info, delta, it):
        s = self.snap()
        self.seen.append(s)
        self.cb.append(int(it))


def eq(a, b):
    return all(wd.same_bits(a[n], b[n]) for n in a)


def dedupe(states):
    out = []
    for s in states:
        if not out or not eq(out[-1], s):
            out.append(s)
    return out


def run(case, ctx):
    spec, cfg = case["spec"], case["cfg"]
    ctx.state(wd.describe(spec), cfg)
    HOOK.reset()
    W = ly.build(spec, cfg, faulty=True)
    for i, call in enumerate(case["calls"]):
        ctx.step()
        one(ctx, W, call, i)
        if ctx.viol:
            return
    PLAN.reset()


def one(ctx, W, call, i):
    spec, cfg = W.spec, W.cfg
    install(call["plan"])
    tr = Trace(W)
    PLAN.observer = tr.solve
    PLAN.budget = 3 * cfg["max_it"] + 10
    torch.manual_seed(call["s"] % 99991)
    call = dict(call, track=[t for t in call["track"] if t not in call.get("drop", [])])
    inp = ly.inputs(W, call)
    try:
        inp, vals, info = ly.run(W, call, grad=call["g"], callback=tr.callback, inp=inp)
    except StepBudget:
        ctx.violate("no-progress", f"more than {PLAN.budget} solves for max_iterations={cfg['max_it']}")
        return
    except RuntimeError as e:
        if call["g"] and ("linear optimizer" in str(e) or PLAN.fired.get("solver_failure")):
            ctx.fault("solve_failed_with_grad")
            return
        if cfg["alg"] == "dcem" and "There is an error in update" in str(e):
            ctx.fault("dcem_update_failed")
            return
        if call["bm"] == "dlm" and "linalg" in str(e):
            return
        raise
    finally:
        PLAN.observer = None
        for k, v in PLAN.fired.items():
            ctx.fault(k, v)
    verify(ctx, W, call, i, inp, vals, info, tr)


def verify(ctx, W, call, i, inp, vals, info, tr):
    spec, cfg = W.spec, W.cfg
    where = dict(alg=cfg["alg"], mode=call["bm"])
    final = {n: x.detach().clone() for n, x in vals.items()}
    st = [int(s.value) for s in info.status]
    fail = -1 in st
    B = len(st)
    aux = {n: v.tensor.detach() for n, v in W.vars.items() if n not in final}
    tw = wd.build(spec, tensors={**{n: x.clone() for n, x in aux.items()}, **{n: x.clone() for n, x in final.items()}}, dtype=W.dtype_name)

    def err_of(state):
        for n, x in state.items():
            tw.vars[n].update(x.to(W.dtype))
        tw.obj.update()
        with torch.no_grad():
            return tw.obj.error_metric()

    # the variables of the objective hold the returned values
    ctx.check(all(wd.same_bits(W.vars[n].tensor, final[n]) for n in final), "returned-values-stale", "returned values differ from the objective's variables", **where)
    x0 = {n: inp[n].detach() for n in final}

    def full(state):  # a variable with batch size 1 stands for the whole batch
        return {n: x.expand(B, *x.shape[1:]) for n, x in state.items()}

    final = full(final)
    seen = dedupe([full(x) for x in [x0] + tr.seen] + [final])
    dlm = call["bm"] == "dlm"

    # ---- histories
    T = None
    H, S = info.err_history, info.state_history
    ctx.check((H is not None) == ("err" in call["track"]), "tracking-flag", "err_history presence", **where)
    ctx.check((S is not None) == ("state" in call["track"]), "tracking-flag", "state_history presence", **where)
    ctx.check((info.best_solution is not None) == ("best" in call["track"]), "tracking-flag", "best_solution presence", **where)
    if S is not None:
        n0 = next(iter(S))
        K = S[n0].shape[-1]
        ctx.check(set(S) == set(final) and K == cfg["max_it"] + 1, "state-history-shape", f"{K}", **where)
        cols = [{n: S[n][..., k].detach() for n in S} for k in range(K)]
        rec = [k for k in range(K) if not all(bool(torch.isposinf(x).all()) for x in cols[k].values())]
        T = len(rec) - 1
        if not ctx.check(rec == list(range(T + 1)), "state-history-gap", f"recorded columns {rec}", **where):
            return
        ctx.check(all(wd.same_bits(cols[T][n], final[n]) for n in final), "last-state-not-final", f"column {T} is not the returned solution", **where)
        # observed states must appear in order among the recorded ones, and nothing else may
        got = dedupe([{n: cols[k][n] for n in final} for k in range(T + 1)])
        if not dlm or cfg["alg"] != "dcem":
            ok = len(got) == len(seen) and all(eq(a, b) for a, b in zip(got, seen))
            ctx.check(ok, "state-history-differs", f"{len(got)} distinct recorded states, {len(seen)} observed", **where)
    if H is not None:
        ctx.check(H.shape == (B, cfg["max_it"] + 1), "err-history-shape", str(H.shape), **where)
        rec = [k for k in range(H.shape[1]) if not bool(torch.isposinf(H[:, k]).all())]
        if S is not None:
            TT = T
            ctx.check(all(k <= T for k in rec), "err-history-extra", f"{rec} vs {T} iterations", **where)
        else:
            TT = rec[-1] if rec else 0
            T = TT
    if T is None:
        T = None
    if T is not None:
        ctx.check(len(tr.cb) <= T <= min(cfg["max_it"], len(tr.cb) + 2), "iteration-count", f"{T} recorded iterations, {len(tr.cb)} callbacks", **where)
        ctx.nontriv = ctx.nontriv or T >= 1
    errs = None
    if S is not None:
        errs = torch.stack([err_of({n: cols[k][n] for n in final}) for k in range(T + 1)], dim=1)
    if H is not None and errs is not None:
        for k in range(T + 1):
            if not ctx.check(wd.close(H[:, k], errs[:, k], k=10), "err-history-differs", lambda: f"column {k} of {T}: {wd.diff(H[:, k], errs[:, k])}", **where):
                return
    if H is not None:
        ref = H[:, : T + 1]
    else:
        ref = errs
    # ---- last error
    eF = err_of(final)
    ctx.check(wd.close(info.last_err.detach(), eF, k=10), "last-err", lambda: f"last_err {info.last_err.detach().tolist()} vs error of the returned values {eF.tolist()}", **where)
    # ---- best
    if info.best_solution is not None:
        eb = err_of({n: x for n, x in info.best_solution.items()})
        ctx.check(wd.close(info.best_err.detach(), eb, k=10), "best-err-of-best-solution", lambda: f"{info.best_err.tolist()} vs {eb.tolist()}", **where)
        if ref is not None:
            r = torch.where(ref.isnan(), torch.full_like(ref, math.inf), ref)
            best = r.min(dim=1).values
            fin = torch.isfinite(best)
            ctx.check(wd.close(info.best_err.detach()[fin], best[fin], k=10), "best-err-not-min", lambda: f"{info.best_err.tolist()} vs trajectory minimum {best.tolist()}", **where)
            bi = info.best_iter
            for b in range(B):
                if not bool(fin[b]):
                    continue
                k = int(bi[b])
                idx = k + 1
                rt, at = wd.tol(W.dtype, 10)
                tiny = at + rt * abs(float(best[b]))
                at0 = bool(r[b, 0] <= best[b] + tiny)
                ok = (0 <= idx <= T and float(r[b, idx]) <= float(best[b]) + tiny) or (k == 0 and at0)
                ctx.check(ok, "best-iter", lambda: f"element {b}: best_iter={k}, trajectory {r[b].tolist()}", **where)
                # the earliest strictly best iterate is the one reported
                if ok and H is not None:
                    first = int((r[b] == best[b]).nonzero()[0])
                    ctx.check(k == max(first - 1, 0), "best-iter-not-first", lambda: f"element {b}: best_iter={k}, first minimum at column {first}", **where)
    # ---- status
    ctx.ev(i, st, info.converged_iter, info.last_err.detach(), list(final.values()))
    ctx.state(call["bm"], st, T, fail, len(seen))
    if fail:
        ctx.check(all(s == -1 for s in st), "partial-fail-status", str(st), **where)
        ctx.check(PLAN.failed > 0 or cfg["alg"] == "dcem", "fail-without-failure", "status FAIL but every solve succeeded", **where)
        ctx.probe("failed_runs")
        return
    ctx.check(all(s in (1, 2) for s in st), "status-not-final", str(st), **where)
    if H is not None:
        model_status(ctx, W, call, info, st, H, T, cols if S is not None else None, where)


def model_status(ctx, W, call, info, st, H, T, cols, where):
    cfg = W.cfg
    B = H.shape[0]
    atol, rtol = cfg["abs"], cfg["rel"]
    conv = torch.zeros(B, T, dtype=torch.bool)
    near = torch.zeros(B, T, dtype=torch.bool)
    for k in range(T):
        e, l = H[:, k + 1], H[:, k]
        a = (l - e).abs()
        r = ((l - e) / l).abs()
        m = float(e.abs().mean())
        if m < atol:
            conv[:, k] = True
        else:
            conv[:, k] = (a < atol) | (r < rtol)
        # rounding: comparisons too close to call are skipped
        slack = 1e-12 if H.dtype == torch.float64 else 1e-5
        near[:, k] |= bool(abs(m - atol) <= slack * max(1.0, abs(atol)) and atol > 0)
        near[:, k] |= ((a - atol).abs() <= slack * (1 + e.abs())) & torch.tensor(atol > 0)
        near[:, k] |= ((r - rtol).abs() <= slack) & torch.tensor(rtol > 0)
    nls = cfg["alg"] != "dcem"
    ngr = {"unroll": T, "dlm": T, "implicit": cfg["max_it"] - 1, "truncated": cfg["max_it"] - min(call.get("bni", 0), cfg["max_it"])}[call["bm"]]
    for b in range(B):
        ks = [k for k in range(T) if bool(conv[b, k])]
        if bool(near[b].any()):
            continue
        want = 1 if ks else 2
        ctx.check(st[b] == want, "status-disagrees-with-errors", lambda: f"element {b}: status {st[b]}, errors {H[b, :T + 1].tolist()}, tolerances {atol}/{rtol}", **where)
        ci = int(info.converged_iter[b])
        if want == 2:
            ctx.check(ci == -1, "converged-iter", lambda: f"element {b} never converged but converged_iter={ci}", **where)
        else:
            first = ks[0]
            if nls or set(ks) == set(range(first, T)):
                ctx.check(ci == first + 1, "converged-iter", lambda: f"element {b}: converged_iter={ci}, first convergence after iteration {first + 1}; errors {H[b, :T + 1].tolist()}", **where)
            ctx.probe("converged_elements")
            if nls and cols is not None:
                stay = T if first + 1 > ngr or call["bm"] in ("unroll", "dlm") else None
                if stay is None:
                    # frozen until the differentiable iterations start: their number is at most max_it - ngr
                    stay = max(first + 1, T - (cfg["max_it"] - ngr))
                if first + 1 <= ngr or call["bm"] in ("unroll", "dlm"):
                    for k in range(first + 1, stay + 1):
                        same = all(wd.same_bits(cols[k][n][b], cols[first + 1][n][b]) for n in cols[k])
                        if not ctx.check(same, "converged-element-moved", lambda: f"element {b} converged at column {first + 1} but moved at column {k}", **where):
                            break
    # a run that ended early must have converged everywhere
    if T < cfg["max_it"] and call["bm"] in ("unroll", "dlm") and not bool(near.any()):
        ctx.check(T > 0 and bool(conv[:, T - 1].all()), "stopped-early", lambda: f"stopped after {T} of {cfg['max_it']} iterations without convergence", **where)


shrink = ly.shrink
