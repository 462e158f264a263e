"""TheseusLayer workloads: configurations, calls, execution and comparison."""
import torch
import theseus as th

from . import world as wd
from .faults import HOOK, PLAN, solver_cls
from .core import SimUserError

TRACKS = ("best", "err", "state")


# ------------------------------------------------------------------ generation
def gen_cfg(rng, algs=None, solvers=None, vec=None, max_it=None, tol=None, **kw):
    alg = rng.choice(algs or ["gn", "lm", "lma", "dogleg"])
    s = solvers or ["chol", "chol", "lu", "cholmod"]
    if alg in ("lma", "dogleg"):
        s = [x for x in s if x != "cholmod"] or ["chol"]
    c = dict(alg=alg, solver=rng.choice(s), vec=rng.p(0.75) if vec is None else vec,
             max_it=max_it if max_it is not None else rng.choice([1, 2, 3, 3, 5, 8]),
             abs=0.0, rel=0.0, step=rng.choice([1.0, 1.0, 0.6]))
    t = tol if tol is not None else rng.choice(["none", "none", "loose", "default"])
    if t == "loose":
        c["abs"], c["rel"] = 0.0, rng.choice([1e-1, 1e-2, 1e-4])
    elif t == "default":
        c["abs"], c["rel"] = 1e-10, 1e-8
    if alg in ("lm", "lma"):
        c["damping"] = rng.choice([1e-3, 0.1, 1.0, 10.0])
        c["ellip"] = c["solver"] != "cholmod" and rng.p(0.4)
    if alg == "lma":
        c["up"], c["down"] = rng.choice([(11.0, 9.0), (2.0, 3.0), (100.0, 9.0)])
        c["accept"] = rng.choice([0.1, 0.0, 0.5])
    if alg == "dogleg":
        c["tr"] = rng.choice([0.5, 0.05, 5.0])
    if alg == "dcem":
        c.update(max_it=rng.choice([2, 3, 4]), n=rng.choice([8, 12]), elite=rng.choice([1, 3]), temp=rng.choice([1.0, 1.0, None]), step=1.0)
    if c["solver"] in ("chol", "lu") and rng.p(kw.get("singular", 0.15)):
        c["check_singular"] = True
    return c


def gen_call(rng, spec, cfg, modes=None, B=None, rgp=0.3, track=None):
    modes = modes or ["unroll", "unroll", "implicit", "truncated"]
    c = dict(s=rng.seed_int(), b=B if B is not None else rng.choice([None, None, None, 1, 2, 4]), bm=rng.choice(modes),
             sc=rng.choice([0.3, 1.0, 1.0]))
    if cfg["alg"] == "dcem":
        c["bm"] = "unroll"
    if c["bm"] == "truncated":
        c["bni"] = rng.randint(1, max(1, cfg["max_it"]))
    c["track"] = track if track is not None else [t for t in TRACKS if rng.p(0.4)]
    c["rg"] = [v["n"] for v in spec["vars"] if rng.p(rgp) and v["n"] in wd.used_names(spec)]
    return c


# ------------------------------------------------------------------ building
def make_optimizer(obj, cfg, faulty=False, **over):
    c = dict(cfg, **over)
    if c["alg"] == "dcem":
        return th.DCEM(obj, max_iterations=c["max_it"], n_sample=c["n"], n_elite=c["elite"], temp=c["temp"],
                       abs_err_tolerance=c["abs"], rel_err_tolerance=c["rel"])
    base = {"chol": th.CholeskyDenseSolver, "lu": th.LUDenseSolver, "cholmod": th.CholmodSparseSolver}[c["solver"]]
    scls = solver_cls(c["solver"]) if faulty else base
    skw = {}
    if c.get("check_singular"):
        skw["check_singular"] = True
    lkw = None
    if c.get("order"):
        o = th.VariableOrdering(obj, default_order=False)
        for n in c["order"]:
            o.append(obj.optim_vars[n])
        lkw = dict(ordering=o)
    if c["alg"] == "lin":
        return th.LinearOptimizer(obj, scls, linear_solver_kwargs=skw, linearization_kwargs=lkw)
    cls = {"gn": th.GaussNewton, "lm": th.LevenbergMarquardt, "lma": th.LevenbergMarquardt, "dogleg": th.Dogleg}[c["alg"]]
    return cls(obj, linear_solver_cls=scls, linear_solver_kwargs=skw, linearization_kwargs=lkw, max_iterations=c["max_it"],
               abs_err_tolerance=c["abs"], rel_err_tolerance=c["rel"], step_size=c["step"])


def build(spec, cfg, tensors=None, dtype=None, faulty=False, order=None):
    W = wd.build(spec, tensors=tensors, dtype=dtype, order=order)
    W.dtype_name = dtype or spec["dtype"]
    W.cfg = cfg
    W.opt = make_optimizer(W.obj, cfg, faulty)
    W.layer = th.TheseusLayer(W.opt, vectorize=cfg["vec"])
    return W


def okw(cfg, call, callback=None):
    k = {}
    if cfg["alg"] == "lin":
        return k
    t = call.get("track", [])
    if "best" in t:
        k["track_best_solution"] = True
    if "err" in t:
        k["track_err_history"] = True
    if "state" in t:
        k["track_state_history"] = True
    if cfg["alg"] in ("lm", "lma"):
        k["damping"] = cfg["damping"]
        k["ellipsoidal_damping"] = cfg["ellip"]
        if cfg["solver"] == "cholmod":
            k.pop("ellipsoidal_damping")
    if cfg["alg"] == "lma":
        k.update(adaptive_damping=True, up_damping_ratio=cfg["up"], down_damping_ratio=cfg["down"], damping_accept=cfg["accept"])
    if cfg["alg"] == "dogleg":
        k["trust_region_init"] = cfg["tr"]
    k["backward_mode"] = call["bm"]
    if call["bm"] == "truncated":
        k["backward_num_iterations"] = call["bni"]
    if call["bm"] == "dlm" and "eps" in call:
        k["dlm_epsilon"] = call["eps"]
    if callback is not None:
        k["end_iter_callback"] = callback
    return k


def inputs(W, call, requires=True):
    """all variables, in the world's dtype; the leaves in call['rg'] require grad"""
    need = list(W.vars)
    b = call.get("b")
    if b is None:
        b = W.spec["B"]
    t = wd.rand_inputs(W.spec, call["s"], names=need, b=b)
    out = {}
    for n, x in t.items():
        x = x.to(W.dtype)
        if requires and n in call.get("rg", ()):
            x.requires_grad_(True)
        out[n] = x
    return out


def nograd_err(call):
    """err history tracking asserts no grad only inside no_grad blocks: always allowed"""
    return call


def run(W, call, grad=True, callback=None, inp=None):
    inp = inputs(W, call) if inp is None else inp
    with torch.set_grad_enabled(grad):
        vals, info = W.layer.forward(inp, optimizer_kwargs=okw(W.cfg, call, callback))
    return inp, vals, info


# ------------------------------------------------------------------ comparing outcomes
def flat_info(info):
    d = {}
    for a in ("best_err", "last_err", "err_history", "converged_iter", "best_iter"):
        x = getattr(info, a, None)
        if x is not None:
            d[a] = x.detach()
    if info.best_solution is not None:
        for n, x in info.best_solution.items():
            d["best_solution." + n] = x.detach()
    if getattr(info, "state_history", None) is not None:
        for n, x in info.state_history.items():
            d["state_history." + n] = x.detach()
    d["status"] = torch.tensor([int(s.value) for s in info.status])
    return d


def loss_of(vals, seed):
    g = torch.Generator().manual_seed(seed)
    tot = 0.0
    for n in vals:
        x = vals[n]
        tot = tot + (x * torch.rand(x.shape, generator=g, dtype=x.dtype)).sum()
    return tot


def grads_of(inp, vals, seed, retain=False):
    ls = [n for n, x in inp.items() if x.requires_grad]
    loss = loss_of(vals, seed)
    if not ls or not isinstance(loss, torch.Tensor) or not loss.requires_grad:
        return {}
    g = torch.autograd.grad(loss, [inp[n] for n in ls], allow_unused=True, retain_graph=retain)
    return {n: x for n, x in zip(ls, g) if x is not None}


def same(a, b, k=1.0):
    if a.dtype.is_floating_point and b.dtype.is_floating_point:
        return wd.close(a, b, k=k)
    return a.shape == b.shape and bool((a == b).all())


def finite_case(ts, lim=1e6):
    """all tensors finite and moderate: comparisons are well conditioned"""
    for x in ts:
        x = x.detach()
        if x.dtype.is_floating_point and (not bool(torch.isfinite(x).all()) or float(x.abs().max() if x.numel() else 0) > lim):
            return False
    return True


def compare(ctx, tag, got, ref, k=1.0, **where):
    """dicts of tensors"""
    if set(got) != set(ref):
        ctx.violate(tag + "-keys", f"{sorted(set(got) ^ set(ref))}", **where)
        return False
    for n in ref:
        a, b = got[n], ref[n]
        if not same(a, b, k):
            ctx.violate(tag, f"{n}: {wd.diff(a, b) if a.dtype.is_floating_point else (a, b)}", **where)
            return False
    return True


def shrink(case):
    for s in wd.shrink_spec(case["spec"]):
        c = dict(case)
        c["spec"] = s
        keep = {v["n"] for v in s["vars"]}

        def fix(o):
            o = dict(o)
            for key in ("names", "rg"):
                if isinstance(o.get(key), list):
                    o[key] = [n for n in o[key] if n in keep]
            return o

        for key in ("ops", "calls"):
            if key in case:
                c[key] = [fix(o) for o in case[key]]
        yield c
    for key in ("cfg",):
        if key in case and case[key].get("max_it", 0) > 1:
            c = dict(case)
            c[key] = dict(case[key], max_it=case[key]["max_it"] - 1)
            yield c
