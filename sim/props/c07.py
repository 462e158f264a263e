"""C07 - a bad batch element cannot change the other elements."""
import math
import warnings

import torch

from .. import layers as ly, world as wd
from ..core import StepBudget
from ..faults import HOOK, PLAN
from . import c04

RUNS = {"quick": 460, "thorough": 26000}
RULE = ("a run is 1-2 forward/backward passes of one layer on a batch in which one element's data is corrupted (NaN, infinite, hugely scaled, zero "
        "weights) or its solves are corrupted; every other element's trajectory, errors and gradients are compared with a run of that element alone; "
        "non-trivial if a corruption was applied and at least one other element was compared over at least one iteration")
REAL = ["TheseusLayer", "GaussNewton, LevenbergMarquardt (fixed and adaptive damping), Dogleg", "CholeskyDenseSolver, LUDenseSolver, CholmodSparseSolver and their autograd", "Objective / Vectorize / cost functions"]
STUB = ["user cost functions and weights", "NaN / scaled deltas of one element (subclass of the real solver)"]
ASSUMPTIONS = ["the documented fallback of the implicit final step (plain solve failed: the optimizer's own step) is per batch",
               "error tolerances that average over the batch are off", "gradients of tensors shared by the whole batch (batch size 1) are sums over elements and not compared",
               "comparisons up to rounding amplified by a small number of iterations"]


def gen(rng, tier, i):
    B = rng.choice([2, 3, 4])
    spec = wd.gen_spec(rng, B=B, b1=0.2, nextra=(0, 5), nv=(1, 3), dtype="float64", zero=rng.choice([0.1, 0.4]), prior_all=True)
    cfg = ly.gen_cfg(rng, algs=["gn", "gn", "lm", "lma", "dogleg"], tol="none", max_it=rng.choice([1, 2, 3, 3, 4]), singular=0.4)
    if cfg["alg"] == "dogleg" and rng.p(0.5):
        cfg["tr"] = rng.choice([0.2, 1.0, 2.0])
    if rng.p(0.2) and cfg["alg"] in ("gn", "lm"):
        cfg["rel"] = rng.choice([1e-2, 1e-4])
        cfg["max_it"] = rng.choice([4, 6])
    calls = []
    for _ in range(rng.choice([1, 1, 2])):
        c = ly.gen_call(rng, spec, cfg, modes=["unroll", "unroll", "implicit", "truncated", "dlm"], rgp=0.4, B=B, track=["err", "state", "best"])
        c["g"] = rng.p(0.65)
        cand = [v["n"] for v in spec["vars"] if v["b"] > 1 and v["n"] in wd.used_names(spec)]
        c["e"] = rng.randint(0, B - 1)
        c["bad"] = [[rng.choice(cand), rng.wchoice([("nan", 4), ("inf", 2), ("huge", 2), ("zero", 2)])] for _ in range(rng.choice([1, 1, 1, 2]))] if cand and rng.p(0.9) else []
        if rng.p(0.3):  # every weight of the element is zero: a singular element
            c["bad"] = [[v["n"], "zero"] for v in spec["vars"] if v["role"] == "w" and v["t"] == "Wgt" and v["b"] > 1]
        c["dn"] = {str(rng.randint(1, cfg["max_it"])): c["e"]} if rng.p(0.25) else {}
        calls.append(c)
    return dict(spec=spec, cfg=cfg, calls=calls)


def corrupt(x, e, kind):
    x = x.detach().clone()
    if kind == "nan":
        x[e] = float("nan")
    elif kind == "inf":
        x[e] = float("inf")
    elif kind == "huge":
        x[e] = x[e] * 1e8
    else:
        x[e] = 0.0
    return x


def run(case, ctx):
    spec, cfg = case["spec"], case["cfg"]
    ctx.state(wd.describe(spec), cfg)
    HOOK.reset()
    PLAN.reset()
    W = ly.build(spec, cfg, faulty=True)
    for i, call in enumerate(case["calls"]):
        ctx.step()
        one(ctx, W, call, i)
        if ctx.viol:
            return
    PLAN.reset()


def go(W, call, inp):
    exc = None
    vals = info = None
    gr = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            _, vals, info = ly.run(W, call, grad=call["g"], inp=inp)
        except (RuntimeError, ValueError) as e:
            exc = e
        if exc is None and call["g"]:
            ls = [n for n, x in inp.items() if x.requires_grad]
            loss = None
            for n in sorted(vals):
                x = vals[n]
                w = torch.linspace(0.5, 1.5, x[0].numel(), dtype=x.dtype).view(x.shape[1:])
                loss = (x * w).sum() if loss is None else loss + (x * w).sum()
            if ls and loss.requires_grad:
                try:
                    g = torch.autograd.grad(loss, [inp[n] for n in ls], allow_unused=True)
                    gr = {n: x for n, x in zip(ls, g) if x is not None}
                except (RuntimeError, ValueError) as e:
                    gr = e
    return vals, info, exc, gr


def one(ctx, W, call, i):
    spec, cfg = W.spec, W.cfg
    e = call["e"]
    inp = ly.inputs(W, call)
    b1 = {n for n in inp if inp[n].shape[0] == 1}
    for n, kind in call["bad"]:
        if n in inp and n not in b1:
            rg = inp[n].requires_grad
            inp[n] = corrupt(inp[n], e, kind).requires_grad_(rg)
            ctx.fault("element_" + kind)
    raw = {n: x.detach().clone() for n, x in inp.items()}
    PLAN.reset()
    PLAN.nan_at = {int(k): v for k, v in call["dn"].items()}
    vals, info, exc, gr = go(W, call, inp)
    for k, v in PLAN.fired.items():
        ctx.fault(k, v)
    natural = PLAN.failed
    PLAN.reset()
    if natural:
        ctx.fault("singular_system", natural)
    B = max(x.shape[0] for x in inp.values())
    where = dict(alg=cfg["alg"], mode=call["bm"], solver=cfg["solver"])
    ctx.ev(i, type(exc).__name__, None if info is None else [int(s.value) for s in info.status])
    ctx.state(call["bm"], exc is None, call["bad"])
    bad = any(n in inp and n not in b1 for n, _ in call["bad"]) or call["dn"]
    if exc is not None:
        if not bad and not natural:
            raise exc
        ctx.probe("raised_for_the_batch")
        return
    if natural and call["bm"] == "implicit":
        # the final implicit step falls back to the optimizer's own step for the whole batch
        return
    H, S = info.err_history, info.state_history
    cols = hist(H)
    fail = int(info.status[0].value) == -1
    for j in range(B):
        if j == e and (call["dn"] or any(k in ("huge", "zero") for _, k in call["bad"])):
            continue
        ti = {n: (raw[n] if n in b1 else raw[n][j : j + 1]) for n in raw}
        ins = {n: x.clone().requires_grad_(inp[n].requires_grad) for n, x in ti.items()}
        try:
            solo = ly.build(spec, cfg, tensors={n: x.clone() for n, x in ti.items()}, faulty=True)
        except ValueError:  # the corrupt data is refused outright
            continue
        v1, i1, x1, g1 = go(solo, call, ins)
        PLAN.reset()
        if x1 is not None:
            if j != e:
                # the same problem alone fails: nothing to compare
                ctx.probe("solo_failed")
            continue
        f1 = int(i1.status[0].value) == -1
        T1 = hist(i1.err_history)
        if cfg["alg"] in ("lma", "dogleg"):
            if not adaptive(ctx, call, info, i1, j, e, min(cols, T1), cols, T1, where, bad):
                return
            if ctx.viol or fail or f1:
                continue
            if rejects(H[j], cols) or rejects(i1.err_history[0], T1) or cols != T1 or cfg["alg"] == "dogleg" or not moderate(i1, T1):
                continue
        if fail and not f1 and call["bm"] in ("unroll", "dlm"):
            T = min(cols, T1)
        elif fail or f1:
            # with a failure in the detached iterations the number of iterations differs between runs
            if call["bm"] not in ("unroll", "dlm"):
                continue
            T = min(cols, T1)
        else:
            T = None
        h1, hb = i1.err_history[0], H[j]
        m = T if T is not None else min(cols, T1)
        if cfg["rel"] and call["bm"] not in ("unroll", "dlm"):
            # the detached loop runs as long as some element has not converged: histories shift, outcomes do not
            m = 0
        if not moderate(i1, m):
            ctx.probe("ill_conditioned")
            continue
        for k in range(m + 1):
            if not ctx.check(ok(hb[k], h1[k], k), "error-differs-from-solo", lambda: f"element {j} (bad {e}), iteration {k}: {float(hb[k])} vs {float(h1[k])} alone", **where):
                return
            for n in S:
                a, b = S[n][j, ..., k], i1.state_history[n][0, ..., k]
                if not ctx.check(ok(a, b, k), "state-differs-from-solo", lambda: f"element {j} (bad {e}), iteration {k}, {n}: {wd.diff(a, b)}", **where):
                    return
        if j != e and m >= 1 and bad:
            ctx.nontriv = True
        if T is not None:
            continue
        if cfg["rel"] and (close_call(i1.err_history[0], T1, cfg["rel"])):
            continue
        for n in vals:
            a, b = vals[n][j].detach(), v1[n][0].detach()
            if not ctx.check(ok(a, b, 3), "solution-differs-from-solo", lambda: f"element {j} (bad {e}), {n}: {wd.diff(a, b)}", **where):
                return
        ctx.check(int(info.status[j].value) == int(i1.status[0].value), "status-differs-from-solo", lambda: f"element {j} (bad {e}): {info.status[j]} vs {i1.status[0]} alone", **where)
        if isinstance(gr, dict) and isinstance(g1, dict):
            for n in g1:
                if n in b1 or n not in gr:
                    continue
                a, b = gr[n][j], g1[n][0]
                if torch.isfinite(b).all() and float(b.abs().max()) < 1e4:
                    if not ctx.check(ok(a, b, 10), "gradient-differs-from-solo", lambda: f"element {j} (bad {e}), d/d{n}: {wd.diff(a, b)}", **where):
                        return
                    ctx.probe("gradients_compared")


def rejects(h, n):
    return any(float(h[k]) == float(h[k + 1]) for k in range(n))


def accepted(info, j, n):
    """the element's sequence of accepted (error, state) pairs: a rejected step leaves both as they were, and whether it
    takes up an iteration depends on the other elements (a step all of them reject is retried)"""
    out = []
    for k in range(n + 1):
        s = {v: x[j, ..., k] for v, x in info.state_history.items()}
        if out and all(torch.equal(s[v], out[-1][1][v]) for v in s):
            continue
        out.append((float(info.err_history[j, k]), s))
    return out


def adaptive(ctx, call, info, i1, j, e, m, cols, T1, where, bad):
    if call["bm"] not in ("unroll", "dlm"):
        return True  # the final steps follow a number of detached iterations
    A, S = accepted(info, j, cols), accepted(i1, 0, T1)
    dog = where["alg"] == "dogleg"
    for k in range(min(len(A), len(S))):
        if not math.isfinite(S[k][0]) or S[k][0] > 1e5 or any(float(x.abs().max()) > 1e3 for x in S[k][1].values()):
            return True
        if k and abs(S[k][0] - S[k - 1][0]) < (1e-2 if dog else 1e-5) * S[k - 1][0]:
            return True  # steps at rounding level are accepted or rejected by noise
        r = 1e-3 if dog else 1e-6
        for v in S[k][1]:
            a, b = A[k][1][v], S[k][1][v]
            if not ctx.check(torch.allclose(a, b, rtol=r * (1 + k), atol=r * (1 + k) * (1 + float(wd._fin_max(b))), equal_nan=True), "accepted-step-differs-from-solo",
                             lambda: f"element {j} (bad {e}), accepted step {k}, {v}: {wd.diff(a, b)}", **where):
                return False
        if k and j != e and bad:
            ctx.nontriv = True
        if k and j != e:
            ctx.probe("adaptive_steps_compared")
    return True


def hist(H):
    k = [c for c in range(H.shape[1]) if not bool(torch.isposinf(H[:, c]).all())]
    return k[-1] if k else 0


def moderate(info, m):
    h = info.err_history[0, : m + 1]
    if not bool(torch.isfinite(h).all()) or float(h.max()) > 1e5:
        return False
    return all(float(x[..., : m + 1].abs().max()) < 1e3 for x in info.state_history.values())


def close_call(h, T, rel):
    for k in range(T):
        l, e = float(h[k]), float(h[k + 1])
        if l and abs(abs(l - e) / l - rel) < 1e-6 or not math.isfinite(e):
            return True
    return False


def ok(a, b, k):
    a, b = a.detach(), b.detach()
    return torch.allclose(a, b, rtol=1e-6 * (1 + k), atol=1e-6 * (1 + k) * (1 + float(wd._fin_max(b))), equal_nan=True)


shrink = ly.shrink
