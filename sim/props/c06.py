"""C06 - adaptive methods never accept a worse iterate and always terminate."""
import math

import torch

from .. import layers as ly, world as wd
from ..core import StepBudget
from ..faults import HOOK, PLAN
from . import c04

RUNS = {"quick": 640, "thorough": 40000}
RULE = ("a run is 1-2 optimizations with adaptive LM or Dogleg on costs with walls, undefined regions, overflow, uphill or vanishing gradients, "
        "scripted over-long, NaN or failing solves; per element, each recorded iterate is either bit-identical to the one before or has a finite error "
        "not above it (errors recomputed on a fresh unvectorized objective); dampings seen by the solver and radii stay in their bounds; solves are bounded; "
        "non-trivial if an element rejected a step and an element accepted one")
REAL = ["LevenbergMarquardt (adaptive), Dogleg, TrustRegion, NonlinearLeastSquares loop", "CholeskyDenseSolver, LUDenseSolver", "Objective / Vectorize / built-in cost functions"]
STUB = ["badly behaved user cost functions", "scaled / NaN / failing solves (subclass of the real solver)"]
ASSUMPTIONS = ["the final Gauss-Newton step of implicit differentiation is not an adaptive step", "errors are compared up to rounding",
               "Dogleg is not given over-long solver steps or step_size > 1 (its quadratic model assumes the solver's step)"]


def gen(rng, tier, i):
    nasty = rng.p(0.75)
    spec = wd.gen_spec(rng, nextra=(1, 5), nv=(1, 3), optb1=rng.choice([0, 0, 0, 1.0]), optmix=rng.choice([0, 0, 0.3]), dtype=rng.wchoice([("float64", 4), ("float32", 1)]), zero=0.1, embodied=not nasty,
                       types=["Vector", "Point2", "Point3"] if nasty else None, nasty=12 if nasty else 0)
    cfg = ly.gen_cfg(rng, algs=["lma", "dogleg"], tol=rng.wchoice([("none", 6), ("default", 2), ("loose", 1)]), max_it=rng.choice([2, 4, 8, 12, 20]), singular=0.2)
    if cfg["alg"] == "lma":
        cfg["damping"] = rng.choice([1e-6, 1e-3, 0.1, 10.0, 1e6])
        cfg["step"] = rng.choice([1.0, 0.6, 2.0])
        cfg["up"], cfg["down"] = rng.choice([(11.0, 9.0), (2.0, 3.0), (1000.0, 1.5), (1.5, 1000.0)])
    else:
        cfg["tr"] = rng.choice([0.5, 0.02, 5.0, 1e4, 1e-4])
        if rng.p(0.5):
            cfg["trk"] = rng.choice([dict(accept_threshold=0.2, shrink_threshold=0.3), dict(shrink_ratio=0.01), dict(expand_ratio=50.0),
                                     dict(min_trust_region=1e-3, max_trust_region=2.0), dict(expand_threshold=0.5)])
    calls = []
    for _ in range(rng.choice([1, 1, 2])):
        c = ly.gen_call(rng, spec, cfg, modes=["unroll", "unroll", "unroll", "truncated", "implicit", "dlm"], rgp=0.1, track=["state", "err", "best"])
        c["g"] = rng.p(0.3)
        c["plan"] = c04.gen_plan(rng, cfg, p=0.5)
        for k, v in c["plan"]["scale"].items():
            if cfg["alg"] == "dogleg":
                c["plan"]["scale"][k] = [min(x, 1.0) for x in v]
        if cfg["alg"] == "dogleg":  # zero-length model steps divide by zero: keep lengths positive
            for k, v in c["plan"]["scale"].items():
                c["plan"]["scale"][k] = [max(x, 1e-3) for x in v]
        else:
            for k, v in c["plan"]["scale"].items():
                c["plan"]["scale"][k] = [x or 1e3 for x in v]
        c["bad"] = rng.wchoice([(None, 4), ("scale", 2), ("nan", 1), ("inf", 1)])
        calls.append(c)
    return dict(spec=spec, cfg=cfg, calls=calls)


def run(case, ctx):
    spec, cfg = case["spec"], case["cfg"]
    ctx.state(wd.describe(spec), cfg)
    HOOK.reset()
    W = ly.build(spec, cfg, faulty=True)
    for i, call in enumerate(case["calls"]):
        ctx.step()
        one(ctx, W, call, i)
        if ctx.viol:
            return
    PLAN.reset()


def bounds(cfg):
    k = cfg.get("trk", {})
    return k.get("min_trust_region", 1e-5), k.get("max_trust_region", 1e5)


def one(ctx, W, call, i):
    spec, cfg = W.spec, W.cfg
    c04.install(call["plan"])
    PLAN.budget = 3 * cfg["max_it"] + 4
    where = dict(alg=cfg["alg"], mode=call["bm"])
    inp = ly.inputs(W, call)
    if call.get("bad"):
        # one batch element of one optimization variable starts from a terrible place
        n = sorted(W.optim)[call["s"] % len(W.optim)]
        x = inp[n].detach().clone()
        b = call["s"] % x.shape[0]
        if wd.vmap_of(spec)[n]["t"] in ("Vector", "Point2", "Point3"):
            x[b] = {"scale": x[b] * 1e3, "nan": x[b] * float("nan"), "inf": x[b].sign() * 1e200 if W.dtype == torch.float64 else x[b].sign() * 1e30}[call["bad"]]
            ctx.fault("bad_initial_" + call["bad"])
        inp[n] = x.requires_grad_(inp[n].requires_grad)
    radii = []
    seen = []

    def cb(opt, info, delta, it):
        r = getattr(opt, "_trust_region", None)
        if isinstance(r, torch.Tensor):
            radii.append(r.detach().clone())

    exc = None
    solves0 = []

    def obs(n):
        solves0.append((torch.is_grad_enabled(), {k: v.tensor.detach().clone() for k, v in W.obj.optim_vars.items()}))

    PLAN.observer = obs
    kw = ly.okw(cfg, call, cb)
    kw.update(cfg.get("trk", {}))
    try:
        with torch.set_grad_enabled(call["g"]):
            vals, info = W.layer.forward(inp, optimizer_kwargs=kw)
    except StepBudget:
        ctx.violate("no-progress", f"more than {PLAN.budget} solves for max_iterations={cfg['max_it']}", **where)
        return
    except RuntimeError as e:
        if not (call["g"] and ("linear optimizer" in str(e) or call["bm"] == "dlm")):
            raise
        exc = e
    finally:
        PLAN.observer = None
        for k, v in PLAN.fired.items():
            ctx.fault(k, v)
    if cfg["alg"] == "lma":
        for j, d in enumerate(PLAN.dampings):
            if isinstance(d, torch.Tensor):
                lo, hi = float(d.min()), float(d.max())
                ctx.check(1e-7 * (1 - 1e-6) <= lo and hi <= 1e7 * (1 + 1e-6), "damping-out-of-bounds", f"solve {j + 1}: damping in [{lo}, {hi}]", **where)
    else:
        mn, mx = bounds(cfg)
        for j, r in enumerate(radii):
            ok = bool(torch.isfinite(r).all()) and float(r.min()) >= mn * (1 - 1e-6) and float(r.max()) <= mx * (1 + 1e-6)
            ctx.check(ok, "radius-out-of-bounds", lambda: f"iteration {j + 1}: radius {r.flatten().tolist()}", **where)
    # the sequence of iterates
    if exc is None:
        S = info.state_history
        K = next(iter(S.values())).shape[-1]
        cols = []
        for k in range(K):
            c = {n: S[n][..., k].detach() for n in S}
            if all(bool(torch.isposinf(x).all()) for x in c.values()):
                break
            cols.append(c)
        if call["bm"] == "implicit":
            cols = cols[:-1] if len(cols) > 1 else cols
        final = {n: x.detach() for n, x in vals.items()}
        ctx.ev(i, list(final.values()), [int(s.value) for s in info.status])
    else:
        cols = []
        for g, s in solves0:
            if not cols or not c04.eq(cols[-1], s):
                cols.append(s)
        ctx.ev(i, type(exc).__name__)
    aux = {n: v.tensor.detach() for n, v in W.vars.items() if n not in W.obj.optim_vars}
    tw = wd.build(spec, tensors={**{n: x.clone() for n, x in aux.items()}, **{n: x.clone() for n, x in cols[0].items()}}, dtype=W.dtype_name)
    errs = []
    for c in cols:
        for n, x in c.items():
            tw.vars[n].update(x.to(W.dtype))
        tw.obj.update()
        with torch.no_grad():
            errs.append(tw.obj.error_metric())
    B = errs[0].shape[0] if errs else 1
    cols = [{n: x.expand(B, *x.shape[1:]) for n, x in c.items()} for c in cols]  # batch size 1 stands for the whole batch
    acc = rej = 0
    rt, at = wd.tol(W.dtype, 1.0)
    for k in range(1, len(cols)):
        for b in range(errs[k].shape[0]):
            same = all(wd.same_bits(cols[k][n][b], cols[k - 1][n][b]) for n in cols[k])
            p, e = float(errs[k - 1][b]), float(errs[k][b])
            if same:
                rej += 1
                continue
            acc += 1
            if not math.isfinite(e):
                ctx.violate("accepted-non-finite", f"iteration {k}, element {b}: error {p} -> {e}", **where)
                return
            if math.isfinite(p) and e > p + rt * abs(p) + at:
                ctx.violate("accepted-worse", f"iteration {k}, element {b}: error {p} -> {e}", **where)
                return
    ctx.probe("accepted", acc)
    ctx.probe("rejected", rej)
    ctx.nontriv = ctx.nontriv or (acc > 0 and rej > 0)
    ctx.state(call["bm"], acc, rej, len(solves0))


shrink = ly.shrink
