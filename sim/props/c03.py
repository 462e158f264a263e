"""C03 - a failed call never corrupts later calls."""
import torch
import theseus as th

from .. import hist, layers as ly, world as wd
from ..core import SimUserError, StepBudget
from ..faults import HOOK, PLAN

RUNS = {"quick": 520, "thorough": 30000}
RULE = ("a run is one layer (random objective, optimizer, solver, vectorization) and 2-5 calls with full inputs, of which at least one "
        "fails at a random point (tensor allocation, user cost function or weight, user callback, linear solver, refused input, backward "
        "pass, interrupt); every successful later call is compared with a freshly built layer; non-trivial if such a comparison followed a failure")
REAL = ["TheseusLayer", "nonlinear optimizers", "linear solvers (torch dense, CHOLMOD)", "Objective / Vectorize / cost functions"]
STUB = ["user cost functions and weights", "tensor allocator (torch dispatch seam)", "linear solver failures (subclass of the real solver)"]
ASSUMPTIONS = ["each compared call supplies a tensor for every variable, so a freshly built layer is the reference",
               "failures inside torch/CHOLMOD kernels are modelled by exceptions raised at the kernel boundary"]

FK = ["alloc", "alloc", "alloc", "user", "interrupt", "value", "notimpl", "solver", "callback", "badshape", "baddtype", "badkw", "backward", "version", "nan"]


def gen(rng, tier, i):
    spec = wd.gen_spec(rng, nextra=(0, 5), nv=(1, 3), dtype="float64", zero=rng.choice([0, 0.2]), types=None)
    algs = ["gn", "lm", "lma", "dogleg", "dcem"] if vector_only(spec) and rng.p(0.3) else ["gn", "lm", "lma", "dogleg"]
    cfg = ly.gen_cfg(rng, algs=algs, max_it=rng.choice([1, 2, 3, 4]))
    calls = []
    n = rng.randint(2, 5)
    modes = ["unroll", "implicit", "truncated"] + (["dlm"] if cfg["alg"] in ("gn", "lm") and cfg["solver"] != "lu" else [])
    for j in range(n):
        c = ly.gen_call(rng, spec, cfg, modes=modes)
        c["g"] = rng.p(0.5)
        c["bwd"] = c["g"] and rng.p(0.7)
        if j and rng.p(0.45):
            c["then"] = rng.choice(["to", "copy"])
        if rng.p(0.6) and j < n - 1:
            c["f"] = dict(k=rng.choice(FK), at=round(rng.random(), 4), ph=rng.choice(["fwd", "fwd", "bwd"]))
        calls.append(c)
    if not any(c.get("f") for c in calls):
        calls[rng.randrange(n - 1)]["f"] = dict(k=rng.choice(FK), at=round(rng.random(), 4), ph="fwd")
    calls[-1]["g"], calls[-1]["bwd"] = True, True
    return dict(spec=spec, cfg=cfg, calls=calls)


def vector_only(spec):
    return all(v["t"] in ("Vector", "Point2", "Point3") for v in spec["vars"] if v["role"] == "o")


class FakeSolve(RuntimeError):
    pass


def outcome(W, call, with_bwd, plan=None):
    """runs the call; returns ('ok', dict) or ('raise', type name)"""
    torch.manual_seed(call["s"] % 99991)
    try:
        inp, vals, info = ly.run(W, call, grad=call["g"])
        d = {"val." + n: x.detach() for n, x in vals.items()}
        d.update({"info." + n: x for n, x in ly.flat_info(info).items()})
        d["flags"] = torch.tensor([int(x.requires_grad) for x in vals.values()])
        if with_bwd and call["bwd"]:
            d.update({"grad." + n: x for n, x in ly.grads_of(inp, vals, call["s"]).items()})
        return "ok", d
    except (StepBudget,):
        raise
    except Exception as e:  # the reference fails identically
        return "raise", type(e).__name__


def run(case, ctx):
    spec, cfg = case["spec"], case["cfg"]
    ctx.state(wd.describe(spec), cfg["alg"], cfg["solver"], cfg["vec"])
    HOOK.reset()
    PLAN.reset()
    W = ly.build(spec, cfg, faulty=True)
    init_checks = (th.geometry.lie_group_check._LieGroupCheckContext.get_context() if hasattr(th.geometry.lie_group_check, "_LieGroupCheckContext") else None)
    failed = 0
    for i, call in enumerate(case["calls"]):
        ctx.step()
        f = call.get("f")
        if f:
            failed += int(do_fault(ctx, W, call, f, i))
            continue
        PLAN.reset()
        HOOK.disarm()
        if call.get("then") and not between(ctx, W, call, case, failed):
            return
        st, got = outcome(W, call, True)
        R = ly.build(spec, cfg, faulty=True)
        PLAN.reset()
        st2, ref = outcome(R, call, True)
        ctx.ev(i, st, got if st == "ok" else got)
        ctx.state(call["bm"], st, call.get("b"), len(call["rg"]))
        where = dict(alg=cfg["alg"], solver=cfg["solver"])
        if st != st2 or (st == "raise" and got != ref):
            ctx.violate("outcome-differs", f"call {i} after {failed} failures: {st} {got if st == 'raise' else ''} vs fresh {st2} {ref if st2 == 'raise' else ''}", **where)
            return
        if st == "ok":
            if ly.compare(ctx, "result-differs", got, ref, k=1e2, **where) and failed:
                ctx.nontriv = True
            # later objective evaluations
            with torch.no_grad():
                a, b = W.obj.error(), R.obj.error()
            ctx.check(wd.close(a, b, k=1e2), "error-differs", lambda: wd.diff(a, b), **where)
        if ctx.viol:
            return


def between(ctx, W, call, case, failed):
    """conversions and copies after failed calls"""
    where = dict(alg=W.cfg["alg"], solver=W.cfg["solver"])
    R = ly.build(case["spec"], case["cfg"], faulty=True)
    k = call["then"]
    try:
        if k == "to":
            W.layer.to(dtype=torch.float32)
            W.layer.to(dtype=torch.float64)
            return True
        inp = ly.inputs(W, call)
        with torch.no_grad():
            W.obj.update({n: x.detach().clone() for n, x in inp.items()})
            C = W.obj.copy()
            C.update({n: x.detach().clone() for n, x in inp.items()})
            a = hist.linearize(C)
    except Exception as e:  # noqa
        try:
            R.layer.to(dtype=torch.float32)
            R.layer.to(dtype=torch.float64)
            with torch.no_grad():
                R.obj.update({n: x.detach().clone() for n, x in ly.inputs(R, call).items()})
                Q = R.obj.copy()
                Q.update({n: x.detach().clone() for n, x in ly.inputs(R, call).items()})
                hist.linearize(Q)
        except Exception:  # noqa
            return True
        return ctx.check(False, "outcome-differs", f"{k} of the {'layer' if k == 'to' else 'objective'} after {failed} failures raised {type(e).__name__}: {e}"[:300], **where)
    with torch.no_grad():
        R.obj.update({n: x.detach().clone() for n, x in inp.items()})
        b = hist.linearize(R.obj)
    return ctx.check(all(wd.close(x, y, k=1e2) for x, y in zip(a, b)), "copy-differs", lambda: f"a copy of the objective after {failed} failures linearizes differently: {[wd.diff(x, y) for x, y in zip(a, b)]}", **where)


def do_fault(ctx, W, call, f, i):
    """execute the call with one fault; returns True if the call failed"""
    k = f["k"]
    cfg, spec = W.cfg, W.spec
    torch.manual_seed(call["s"] % 99991)
    inp = ly.inputs(W, call)
    PLAN.reset()
    HOOK.disarm()
    call = dict(call)
    if k in ("badshape", "baddtype"):
        names = sorted(inp)
        n = names[int(f["at"] * len(names))]
        x = inp[n].detach()
        inp[n] = torch.cat([x, x], dim=-1) if k == "badshape" else x.to(torch.float16)
        order = names[int(f["at"] * 7) % len(names):] + names[: int(f["at"] * 7) % len(names)]
        inp = {m: inp[m] for m in order}
        try:
            ly.run(W, call, grad=call["g"], inp=inp)
            ctx.violate("bad-input-accepted", f"{n} {k}")
        except Exception:
            ctx.fault("refused_input")
        return True
    if k == "nan":
        n = [m for m in sorted(inp) if {v["n"]: v["t"] for v in spec["vars"]}[m] in ("Vector", "Point2", "Point3", "Var")]
        if not n:
            return False
        n = n[int(f["at"] * len(n))]
        x = inp[n].detach().clone()
        x.view(x.shape[0], -1)[0, 0] = float("nan")
        inp[n] = x
        ctx.fault("nan_input")
        try:
            ly.run(W, call, grad=call["g"], inp=inp)
        except Exception:
            ctx.probe("nan_raises")
        return True
    if k == "badkw":
        kw = ly.okw(cfg, call)
        if f["at"] < 0.4:
            kw["backward_mode"] = "no_such_mode"
        elif f["at"] < 0.7:
            kw["backward_mode"] = "truncated"
            kw.pop("backward_num_iterations", None)
        else:
            kw["damping"] = "x"
        try:
            with torch.set_grad_enabled(call["g"]):
                W.layer.forward(inp, optimizer_kwargs=kw)
        except Exception:
            ctx.fault("refused_arguments")
            return True
        return False
    if k == "version":
        return False
    if k == "solver":
        PLAN.fail_at = {1 + int(f["at"] * cfg["max_it"])}
        try:
            ly.run(W, call, grad=call["g"], inp=inp)
        except RuntimeError:
            pass
        except Exception:
            ctx.probe("other_failure")
        if PLAN.fired.get("solver_failure"):
            ctx.fault("linear_solver_failure")
            return True
        return False
    if k == "callback":
        at = int(f["at"] * cfg["max_it"])

        def cb(o, info, d, it):
            if it == at:
                raise SimUserError("[sim] callback")
        try:
            ly.run(W, call, grad=call["g"], inp=inp, callback=cb)
        except SimUserError:
            ctx.fault("callback_raises")
            return True
        except RuntimeError:
            ctx.probe("singular_system")
            return True
        return False

    def fwd(w):
        return ly.run(w, call, grad=call["g"], inp={n: x.detach().clone().requires_grad_(x.requires_grad) for n, x in inp.items()})

    def fresh():
        R = ly.build(spec, cfg, faulty=True)
        return R

    if k == "backward" or (f["ph"] == "bwd" and call["g"] and call["rg"]):
        # the fault hits the backward pass
        kk = "alloc"
        try:
            ip, vals, info = fwd(W)
        except RuntimeError:
            return False
        R = fresh()
        torch.manual_seed(call["s"] % 99991)
        rp, rvals, _ = fwd(R)
        out, e = hist.guarded(ctx, dict(k=kk, at=f["at"]), lambda: _bw(ip, vals, call), lambda: _bw(rp, rvals, call))
        if e is not None:
            ctx.fault("backward_failed")
        return e is not None

    def real():
        return fwd(W)

    def dry():
        fwd(fresh())
    try:
        out, e = hist.guarded(ctx, dict(k=k, at=f["at"]), real, dry)
    except Exception as ex:
        ctx.probe("other_failure_" + type(ex).__name__)
        return True
    ctx.ev(i, k, type(e).__name__ if e is not None else "ok")
    return e is not None


def _bw(inp, vals, call):
    return ly.grads_of(inp, vals, call["s"])


shrink = ly.shrink
