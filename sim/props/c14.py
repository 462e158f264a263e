"""C14 - gradients do not depend on the layer's history."""
import json

import torch
import theseus as th

from .. import hist, layers as ly, world as wd
from ..core import SIM_FAULTS, StepBudget
from ..faults import EXC, HOOK, PLAN, OpFault
from .c17 import undecided

RUNS = {"quick": 420, "thorough": 30000}
RULE = ("a run is one layer and a schedule of forward calls (any mix of backward modes, batch sizes, full or partial inputs, leaves shared "
        "between calls), delayed or repeated or joint backward passes, failing forwards and backwards, evaluations and updates in between; "
        "each gradient is compared with that of a fresh layer given the same state that ran only that call; non-trivial if another event "
        "lay between the construction of the layer and the compared backward pass")
REAL = ["TheseusLayer (incl. direct loss minimization), nonlinear optimizers, linear solvers and their backward passes", "torch autograd"]
STUB = ["user cost functions and weights", "tensor allocator (dispatch seam)", "linear solver failures (subclass of the real solver)"]
ASSUMPTIONS = ["variables that a call does not supply are given to the reference layer as constants"]


def gen(rng, tier, i):
    spec = wd.gen_spec(rng, nextra=(0, 4), nv=(1, 3), dtype="float64", zero=rng.choice([0, 0.2]), maxc=8, prior_all=True)
    cfg = ly.gen_cfg(rng, algs=["gn", "gn", "lm", "lma", "dogleg"], max_it=rng.choice([1, 2, 3]), tol=rng.choice(["none", "none", "default"]))
    modes = ["unroll", "implicit", "truncated"]
    if cfg["alg"] in ("gn", "lm") and cfg["solver"] != "lu":
        modes += ["dlm", "dlm", "dlm"]
    ev = []
    nc = 0
    pending = []
    aux = [v["n"] for v in spec["vars"] if v["role"] != "o" and v["n"] in wd.used_names(spec)]
    for _ in range(rng.randint(3, 9)):
        k = rng.wchoice([("fwd", 5), ("bwd", 4 if pending else 0), ("bwdfail", 1.5 if pending else 0), ("joint", 0.7 if len(pending) > 1 else 0),
                         ("upd", 1), ("err", 0.7), ("lin", 0.5), ("fwdfail", 1), ("nograd", 0.7), ("copy", 0.3)])
        if k == "fwd":
            c = ly.gen_call(rng, spec, cfg, modes=modes, rgp=0.6)
            if c["bm"] == "dlm":
                c["eps"] = rng.choice([1e-2, 1e-3, 1e-1])
            if rng.p(0.12):  # only initial values of optimization variables
                c["rg"] = [v["n"] for v in spec["vars"] if v["role"] == "o" and v["n"] in wd.used_names(spec) and rng.p(0.7)]
            if cfg["alg"] in ("lma", "dogleg") and "err" not in c["track"]:
                c["track"] = c["track"] + ["err"]
            if not c["rg"]:
                c["rg"] = [rng.choice(aux)] if aux else [v["n"] for v in spec["vars"]][:1]
            if rng.p(0.06):  # an input that belongs to no variable
                c["extra"] = True
                c["rg"] = c["rg"] if rng.p(0.3) else []
            if nc and rng.p(0.4):  # partial inputs: everything else keeps its value
                c["b"] = None
                c["part"] = [v["n"] for v in spec["vars"] if rng.p(0.5)]
            if nc and rng.p(0.25):
                c["share"] = rng.randrange(nc)
            ev.append(dict(e="fwd", c=c))
            pending.append(nc)
            nc += 1
        elif k in ("bwd", "bwdfail"):
            j = rng.choice(pending)
            e = dict(e=k, j=j, s=rng.seed_int(), again=rng.p(0.3))
            if k == "bwdfail":
                e["at"] = round(rng.random(), 4)
                e["k"] = rng.choice(["alloc", "alloc", "user"])
            ev.append(e)
            if not e["again"] and k == "bwd":
                pending.remove(j)
        elif k == "joint":
            a, b = rng.sample(pending, 2)
            ev.append(dict(e="joint", a=a, b=b, s=rng.seed_int()))
        else:
            e = dict(e=k, s=rng.seed_int())
            if k in ("fwdfail", "nograd"):
                e["c"] = ly.gen_call(rng, spec, cfg, modes=modes)
                e["at"] = round(rng.random(), 4)
                e["k"] = rng.choice(["alloc", "user", "solver", "interrupt"])
            if k == "upd":
                e["names"] = [v["n"] for v in spec["vars"] if rng.p(0.4)]
            ev.append(e)
    for j in pending:
        ev.append(dict(e="bwd", j=j, s=rng.seed_int(), again=False))
    return dict(spec=spec, cfg=cfg, ev=ev)


class Call:
    pass


def shrunk(W, t, sizes):
    """an earlier call left an optimization variable with batch size 1 while others are to be batched (not every cost takes that)"""
    return max(sizes) > 1 and any(v["role"] == "o" and v["b"] != 1 and v["n"] in W.vars and v["n"] not in t and W.vars[v["n"]].tensor.shape[0] == 1
                                  for v in W.spec["vars"])


def forward(W, c, calls, ctx):
    """runs the call on the layer under test and on a reference layer that never did anything else"""
    full = ly.inputs(W, c)
    inp = full
    if c.get("part") is not None:
        optim = {v["n"] for v in W.spec["vars"] if v["role"] == "o"}
        keep = set(c["part"]) | set(c["rg"])
        if c.get("share") is not None:
            keep |= optim
        bsz = W.obj.batch_size
        inp = {n: x for n, x in full.items() if n in keep}
        sizes = {x.shape[0] for x in inp.values()} | {v.tensor.shape[0] for n, v in W.vars.items() if n not in inp}
        if len(sizes - {1}) > 1 or shrunk(W, inp, sizes):
            inp = full
        del bsz
    sh = c.get("share")
    if sh is not None and sh < len(calls) and calls[sh] is not None:
        o = calls[sh].inp
        for n in list(inp):
            if n in o and o[n].requires_grad and inp[n].requires_grad and o[n].shape == inp[n].shape:
                inp[n] = o[n]
    if not inp:
        return None
    if c.get("extra"):
        inp = dict(inp, unrelated=torch.ones(1, 1, dtype=W.dtype, requires_grad=True))
    C = Call()
    C.inp, C.c = inp, c
    state = {n: v.tensor.detach().clone() for n, v in W.vars.items() if n not in inp}
    C.state = state
    HOOK.reset()
    PLAN.reset()
    try:
        _, C.vals, info = ly.run(W, c, inp=inp)
        C.err = None
    except (RuntimeError, ValueError) as e:
        if isinstance(e, StepBudget):
            raise
        C.err = e
    # the reference is executed now, and its gradients are taken at once
    R = ly.build(W.spec, W.cfg, faulty=True, tensors=dict(state, **{n: x.detach().clone() for n, x in inp.items() if n in W.vars}))
    R.obj.update()
    C.ref_inp = {n: x.detach().clone().requires_grad_(x.requires_grad) for n, x in inp.items()}
    HOOK.reset()
    PLAN.reset()
    try:
        _, C.ref_vals, _ = ly.run(R, c, inp=C.ref_inp)
        e2 = None
    except (RuntimeError, ValueError) as e:
        e2 = e
    if (C.err is None) != (e2 is None):
        ctx.violate("outcome-differs", f"forward ({c['bm']}) gives {C.err!r}, on a fresh layer {e2!r}", bm=c["bm"])
        return None
    if C.err is not None:
        ctx.probe("forward_fails_on_both")
        # is it the problem that fails, or the bookkeeping for gradients?
        N = ly.build(W.spec, W.cfg, faulty=True, tensors=dict(state, **{n: x.detach().clone() for n, x in inp.items() if n in W.vars}))
        N.obj.update()
        try:
            _, _, info = ly.run(N, c, inp={n: x.detach().clone() for n, x in inp.items()}, grad=False)
        except (RuntimeError, ValueError):
            return None
        if not any("FAIL" in str(x) for x in info.status):
            ctx.violate("gradients-make-the-call-fail", f"forward ({c['bm']}) raises {C.err!r} with gradients required for {c['rg']}, and succeeds without", bm=c["bm"])
        return None
    C.R = R
    C.fine = ly.finite_case(list(C.ref_vals.values()))
    C.smooth = W.cfg["alg"] not in ("lma", "dogleg") or not undecided(ly.flat_info(info))  # a step accepted by rounding is a kink
    if not C.smooth:
        ctx.probe("accept_decision_within_rounding")
    for n, x in C.ref_vals.items():
        if C.fine and not wd.close(C.vals[n], x, k=1e2):
            ctx.violate("values-differ", f"{n} ({c['bm']}): {wd.diff(C.vals[n], x)}", bm=c["bm"])
            return None
        if C.vals[n].requires_grad != x.requires_grad and c.get("part") is None:
            ctx.violate("grad-flag-differs", f"{n} ({c['bm']}): requires_grad {C.vals[n].requires_grad}, fresh layer {x.requires_grad}", bm=c["bm"])
    C.refs = {}
    return C


def gr(inp, vals, seed):
    ls = [n for n in sorted(inp) if inp[n].requires_grad]
    loss = ly.loss_of(vals, seed % 100003)
    if not ls or not loss.requires_grad:
        return {n: None for n in ls}
    g = torch.autograd.grad(loss, [inp[n] for n in ls], allow_unused=True, retain_graph=True)
    return dict(zip(ls, g))


def attempt(f):
    try:
        return f(), None
    except RuntimeError as e:
        if isinstance(e, StepBudget):
            raise
        return None, e


def conditioned(W, C):
    """the linear system at the solution of the call is far from singular"""
    t = dict(C.state, **{n: x.detach().clone() for n, x in C.ref_inp.items() if n in W.vars})
    t.update({n: x.detach().clone() for n, x in C.ref_vals.items()})
    R = ly.build(W.spec, W.cfg, faulty=True, tensors=t)
    R.obj.update()
    with torch.no_grad():
        try:
            A, _ = hist.linearize(R.obj)
            s = torch.linalg.svdvals(A)
        except RuntimeError:
            return False
    return bool(torch.isfinite(A).all()) and A.shape[1] >= A.shape[2] and bool((s[:, -1] > 1e-4 * s[:, 0]).all())


def cmp_grads(ctx, C, got, ref, what):
    if not C.smooth:
        return True
    for n in ref:
        a, b = got.get(n), ref[n]
        if b is not None and not ly.finite_case([b], 1e9):
            continue
        a = torch.zeros_like(C.inp[n]) if a is None else a
        b = torch.zeros_like(C.inp[n]) if b is None else b
        if not wd.close(a, b, k=1e3 / max(1e-3, 1.0) if C.c["bm"] != "dlm" else 1e3 / C.c["eps"]):
            ctx.violate("gradient-differs", f"d loss / d {n} ({C.c['bm']}) {what}: {wd.diff(a, b)}", bm=C.c["bm"])
            return False
    return True


def run(case, ctx):
    spec, cfg = case["spec"], case["cfg"]
    ctx.state(wd.describe(spec), cfg["alg"], cfg["solver"], cfg["vec"])
    HOOK.reset()
    PLAN.reset()
    W = ly.build(spec, cfg, faulty=True)
    W.obj.update()
    calls = []
    n_ev = 0
    for i, e in enumerate(case["ev"]):
        ctx.step()
        k = e["e"]
        HOOK.reset()
        PLAN.reset()
        if k == "fwd":
            C = forward(W, e["c"], calls, ctx)
            calls.append(C)
            if C is not None:
                C.born = i
            ctx.state(k, e["c"]["bm"], e["c"].get("part") is not None, C is None)
            if ctx.viol:
                return
        elif k in ("bwd", "bwdfail"):
            C = calls[e["j"]] if e["j"] < len(calls) else None
            if C is None:
                continue
            ref, e1 = attempt(lambda: gr(C.ref_inp, C.ref_vals, e["s"]))
            if e1 is None and k == "bwdfail":
                if not fail_backward(ctx, C, e):
                    continue
            got, e2 = attempt(lambda: gr(C.inp, C.vals, e["s"]))
            if e1 is not None or e2 is not None:
                # direct loss minimization solves once more, at the solution
                if (e1 is None) != (e2 is None) and conditioned(W, C):
                    ctx.violate("outcome-differs", f"backward ({C.c['bm']}) gives {e2!r}, on a fresh layer {e1!r}", bm=C.c["bm"])
                    return
                ctx.probe("backward_cannot_solve")
                continue
            ctx.ev(i, [x for x in got.values() if x is not None])
            ctx.state(k, i - C.born, C.c["bm"])
            if not C.fine:
                continue
            if i > 1:
                ctx.nontriv = True
            if not cmp_grads(ctx, C, got, ref, f"{'retried after a failed backward, ' if k == 'bwdfail' else ''}{i - C.born - 1} events after its forward call, {n_ev} events in all"):
                return
        elif k == "joint":
            A, B = (calls[e[x]] if e[x] < len(calls) else None for x in "ab")
            if A is None or B is None or not (A.fine and B.fine):
                continue
            if any(attempt(lambda: gr(C.ref_inp, C.ref_vals, e["s"]))[1] is not None for C in (A, B)):
                continue
            ls = [(C, n) for C in (A, B) for n in sorted(C.inp) if C.inp[n].requires_grad]
            loss = ly.loss_of(A.vals, e["s"] % 100003) + ly.loss_of(B.vals, e["s"] % 100003)
            if not ls or not loss.requires_grad:
                continue
            ts = [C.inp[n] for C, n in ls]
            if len({id(t) for t in ts}) != len(ts):
                continue  # shared leaf: the sum is compared elsewhere
            got = torch.autograd.grad(loss, ts, allow_unused=True, retain_graph=True)
            if any(calls[x].c.get("part") is not None for x in (e["a"], e["b"])):
                continue  # a variable left unsupplied carries the other call's graph: the sum is not separable
            for C in (A, B):
                ref = gr(C.ref_inp, C.ref_vals, e["s"])
                mine = {n: g for (D, n), g in zip(ls, got) if D is C}
                if not cmp_grads(ctx, C, mine, ref, "in a joint backward pass"):
                    return
        elif k == "upd":
            t = wd.rand_inputs(spec, e["s"], names=e["names"], b=None) if e["names"] else {}
            t = {n: x for n, x in t.items()}
            sizes = {x.shape[0] for x in t.values()} | {v.tensor.shape[0] for n, v in W.vars.items() if n not in t}
            if len(sizes - {1}) <= 1 and not shrunk(W, t, sizes):
                W.obj.update(t)
        elif k == "err":
            W.obj.error(also_update=False) if e["s"] % 2 else W.obj.error_metric()
        elif k == "lin":
            with torch.set_grad_enabled(bool(e["s"] % 2)):
                hist.linearize(W.obj)
        elif k == "copy":
            o = W.obj.copy()
            o.update()
            o.error()
        elif k == "nograd":
            with torch.no_grad():
                try:
                    ly.run(W, e["c"], grad=False)
                except (RuntimeError, ValueError):
                    pass
        elif k == "fwdfail":
            fail_forward(ctx, W, e)
        if ctx.viol:
            return
        n_ev += 1


def fail_forward(ctx, W, e):
    k, c = e["k"], e["c"]
    inp = ly.inputs(W, c)
    m = None
    try:
        if k == "solver":
            PLAN.fail_at = {1 + int(e["at"] * W.cfg["max_it"])}
            ly.run(W, c, inp=inp)
            if PLAN.fired.get("solver_failure"):
                ctx.fault("linear_solver_failure")
        elif k == "alloc":
            m = OpFault(1 + int(e["at"] * 400))
            with m:
                ly.run(W, c, inp=inp)
        else:
            HOOK.arm(1 + int(e["at"] * 12), EXC[k])
            ly.run(W, c, inp=inp)
    except SIM_FAULTS + (RuntimeError, ValueError):
        ctx.fault({"solver": "linear_solver_failure", "alloc": "alloc_failure_in_forward"}.get(k, "user_code_fails_in_forward"))
    HOOK.reset()
    PLAN.reset()


def fail_backward(ctx, C, e):
    """a backward pass that fails part-way; the graph is retained"""
    if e["k"] == "user":
        HOOK.arm(0)
        gr(C.ref_inp, C.ref_vals, e["s"])
        n = HOOK.n
        if not n:
            return True
        HOOK.arm(1 + int(e["at"] * n))
        try:
            gr(C.inp, C.vals, e["s"])
        except SIM_FAULTS:
            ctx.fault("user_code_fails_in_backward")
        HOOK.reset()
        return True
    c = OpFault(0)
    with c:
        gr(C.ref_inp, C.ref_vals, e["s"])
    m = OpFault(1 + int(e["at"] * c.n))
    try:
        with m:
            gr(C.inp, C.vals, e["s"])
    except RuntimeError:
        if not m.fired:
            raise
    if m.fired:
        ctx.fault("alloc_failure_in_backward")
    return True


def shrink(case):
    for i in range(len(case["ev"])):
        c = json.loads(json.dumps(case))
        e = c["ev"].pop(i)
        if e["e"] == "fwd":  # renumber
            k = sum(1 for x in case["ev"][:i] if x["e"] == "fwd")
            out = []
            for x in c["ev"]:
                if any(x.get(f) == k for f in ("j", "a", "b") if not isinstance(x.get(f), bool)) and x["e"] in ("bwd", "bwdfail", "joint"):
                    continue
                for f in ("j", "a", "b"):
                    if x["e"] in ("bwd", "bwdfail", "joint") and x.get(f, -1) > k:
                        x[f] -= 1
                if x["e"] == "fwd" and x["c"].get("share") is not None:
                    if x["c"]["share"] == k:
                        del x["c"]["share"]
                    elif x["c"]["share"] > k:
                        x["c"]["share"] -= 1
                out.append(x)
            c["ev"] = out
        if c["ev"]:
            yield c
    for s in wd.shrink_spec(case["spec"]):
        c = json.loads(json.dumps(case))
        c["spec"] = s
        keep = {v["n"] for v in s["vars"]}
        for e in c["ev"]:
            if "names" in e:
                e["names"] = [n for n in e["names"] if n in keep]
            if "c" in e:
                e["c"]["rg"] = [n for n in e["c"]["rg"] if n in keep]
                if e["c"].get("part") is not None:
                    e["c"]["part"] = [n for n in e["c"]["part"] if n in keep]
        yield c
    if case["cfg"]["max_it"] > 1:
        yield dict(case, cfg=dict(case["cfg"], max_it=case["cfg"]["max_it"] - 1))
