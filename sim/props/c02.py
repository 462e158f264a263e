"""C02 - evaluating an objective temporarily leaves every variable untouched."""
import warnings

import torch
import theseus as th
from theseus import utils as thutils

from .. import hist, world as wd
from ..faults import HOOK

RUNS = {"quick": 700, "thorough": 40000}
RULE = ("a run is one generated objective plus a history of 3-12 calls of which at least a third are temporary evaluations "
        "(also_update=False) with arbitrary subsets of inputs, unknown names, other batch sizes, refused tensors or a fault inside; "
        "non-trivial if a temporary evaluation that changed some value (or failed part-way) was followed by the comparison with a "
        "shadow objective that never saw it")
REAL = ["theseus.core (Objective, Vectorize, cost functions, weights)", "theseus.geometry", "optimizers (LM, GN)"]
STUB = ["user cost functions and weights (harness-written, hooked)", "tensor allocator (fault seam: torch dispatch)"]
ASSUMPTIONS = ["a shadow objective executing the same history without the temporary evaluations is the reference"]


def gen(rng, tier, i):
    spec = wd.gen_spec(rng, nextra=(0, 6), nv=(1, 3), dtype="float64" if rng.p(0.85) else "float32")
    frate = rng.choice([0.0, 0.3, 0.6])
    ops = []
    for _ in range(rng.randint(3, 12)):
        k = rng.wchoice([("tmp", 6), ("upd", 3), ("updall", 1), ("lin", 2), ("err", 1), ("opt", 0.7), ("verify", 1), ("mask", 1), ("eval", 1.5)])
        o = dict(op=k, g=rng.p(0.5), s=rng.seed_int())
        if k in ("tmp", "upd"):
            o["names"] = hist.gen_names(rng, spec, rng.choice([0.15, 0.5, 0.95]))
            o["rg"] = rng.p(0.4)
        if k == "tmp":
            o["metric"] = rng.p(0.3)
            o["bad"] = rng.wchoice([("", 8), ("shape", 1.5), ("dtype", 1), ("unknown", 1), ("ndim", 0.7), ("batch", 1.2)])
            o["newb"] = rng.choice([None, None, None, 1, 2, 4])
            f = hist.gen_fault(rng, frate)
            if f and not o["bad"]:
                o["f"] = f
        if k in ("verify", "mask", "eval"):
            f = hist.gen_fault(rng, frate)
            if f:
                o["f"] = f
        if k == "updall":
            o["b"] = rng.choice([None, 2, 4])
        ops.append(o)
    return dict(spec=spec, ops=ops, vec=rng.p(0.7))


def run(case, ctx):
    spec = case["spec"]
    ctx.state(wd.describe(spec), spec["B"], case["vec"])
    S = wd.build(spec, vectorize=case["vec"])
    R = wd.build(spec, vectorize=case["vec"])
    S.dtype_name = R.dtype_name = spec["dtype"]
    HOOK.reset()
    S.obj.update()
    R.obj.update()
    for i, op in enumerate(case["ops"] + [dict(op="lin", g=True, s=1), dict(op="err", g=False, s=2), dict(op="opt", g=False, s=3)]):
        ctx.step()
        with torch.set_grad_enabled(bool(op["g"])):
            do(ctx, S, R, op, i)
        if ctx.viol:
            return


def inputs(W, op, b=None):
    from .c01 import fresh
    return fresh(W, op, b=b)


def do(ctx, S, R, op, i):
    k = op["op"]
    spec = S.spec
    if k == "tmp":
        # without a new batch size the given subset keeps the current one
        if op.get("newb"):
            op = dict(op, names=[v["n"] for v in spec["vars"]])
        t = inputs(S, op, b=op.get("newb"))
        names = sorted(t, key=lambda n: hash_order(n, op["s"]))
        t = {n: t[n] for n in names}
        bad = op["bad"]
        victim = names[op["s"] % len(names)]
        if bad == "shape":
            t[victim] = torch.cat([t[victim], t[victim]], dim=-1)
        elif bad == "dtype":
            t[victim] = t[victim].detach().to(torch.float16)
        elif bad == "ndim":
            t[victim] = t[victim].detach().flatten()
        elif bad == "batch":
            x = t[victim].detach()
            o = [n for n, v in S.vars.items() if n != victim]
            if all((t[n] if n in t else S.vars[n].tensor).shape[0] == 1 for n in o):
                bad = ""
            else:
                t[victim] = x[:1].expand((7,) + x.shape[1:]).clone()
        elif bad == "unknown":
            t["no_such_variable"] = torch.zeros(1, 2, dtype=S.dtype)
        before = {n: v.tensor for n, v in S.vars.items()}
        bits = {n: (x.detach().clone(), x.requires_grad) for n, x in before.items()}
        bs = S.obj.batch_size
        fn = lambda w: (w.obj.error_metric if op["metric"] else w.obj.error)(t, also_update=False)  # noqa
        err = None
        try:
            f = op.get("f")
            from .c01 import clone_exec
            out, err = hist.guarded(ctx, f, lambda: fn(S), clone_exec(S, fn) if f else None)
        except ValueError as e:
            if bad in ("shape", "dtype", "ndim", "batch"):
                ctx.fault("refused_input_" + bad)
                err = e
            else:
                raise
        ctx.ev(i, k, bad, err is not None)
        ctx.state(k, bad, bool(op.get("f")), type(err).__name__, op.get("newb"))
        if bad in ("shape", "dtype", "ndim", "batch") and err is None:
            ctx.violate("bad-input-accepted", f"temporary evaluation accepted a bad tensor ({bad})")
            return
        ctx.nontriv = True
        for n, (x, rg) in bits.items():
            y = S.vars[n].tensor
            ctx.check(wd.same_bits(y, x) and y.requires_grad == rg, "variable-changed",
                      lambda: f"{n} changed by a temporary evaluation that {'failed: ' + repr(err)[:80] if err is not None else 'succeeded'}: {wd.diff(y, x) if y.shape == x.shape else (y.shape, x.shape)}",
                      failed=err is not None, role={v["n"]: v["role"] for v in spec["vars"]}[n])
        ctx.check(S.obj.batch_size == bs, "batch-size-changed", f"batch size {bs} -> {S.obj.batch_size}")
        if err is None:
            ov = {n: x.detach().clone() for n, x in t.items() if n in S.vars}
            tw = hist.twin(S, tensors=ov)
            tw.obj.update()
            ref = tw.obj.error_metric() if op["metric"] else tw.obj.error()
            ctx.check(wd.close(out, ref), "temporary-error-wrong", lambda: wd.diff(out, ref))
            ctx.ev(out.detach())
        return
    if k == "verify":
        from .c01 import clone_exec
        bits = {n: (v.tensor.detach().clone(), v.tensor.requires_grad) for n, v in S.vars.items()}

        def fn(w):
            torch.manual_seed(op["s"])
            for c in w.obj.cost_functions.values():
                try:
                    thutils.check_jacobians(c, 1 + op["s"] % 2, tol=1e-3)
                except RuntimeError as e:  # a rough cost function may fail the check
                    if "appears incorrect" not in str(e):
                        raise

        f = op.get("f")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _, err = hist.guarded(ctx, f, lambda: fn(S), clone_exec(S, fn) if f else None)
        ctx.ev(i, k, err is not None)
        ctx.state(k, bool(f), type(err).__name__)
        for n, (x, rg) in bits.items():
            y = S.vars[n].tensor
            ctx.check(wd.same_bits(y, x) and y.requires_grad == rg, "variable-changed",
                      lambda: f"{n} changed by a jacobian self-check that {'failed: ' + repr(err)[:80] if err is not None else 'succeeded'}",
                      failed=err is not None, role={v["n"]: v["role"] for v in spec["vars"]}[n])
        return
    if k == "mask":
        return masked(ctx, S, op, i)
    if k == "eval":
        return evaluated(ctx, S, op, i)
    bits = {n: (v.tensor.detach().clone(), v.tensor.requires_grad) for n, v in S.vars.items()} if k in ("err", "lin") else {}
    if k in ("upd", "updall"):
        t = inputs(S, dict(op, names=op.get("names")), b=op.get("b"))
        for w in (S, R):
            w.obj.update({n: x.detach().clone().requires_grad_(x.requires_grad) for n, x in t.items()})
    elif k == "err":
        a, b = S.obj.error(), R.obj.error()
        ctx.check(wd.close(a, b), "later-error-differs", lambda: wd.diff(a, b))
    elif k == "lin":
        a, b = hist.linearize(S.obj), hist.linearize(R.obj)
        ctx.check(wd.close(a[0], b[0]) and wd.close(a[1], b[1]), "later-linearization-differs", lambda: wd.diff(a[0], b[0]) + wd.diff(a[1], b[1]))
        ctx.check(a[0].requires_grad == b[0].requires_grad and a[1].requires_grad == b[1].requires_grad, "later-linearization-grad", "gradient history differs")
    elif k == "opt":
        with torch.no_grad():
            for w in (S, R):
                o = th.LevenbergMarquardt(w.obj, max_iterations=2, abs_err_tolerance=0, rel_err_tolerance=0)
                w.info = o.optimize(damping=0.5, track_err_history=True)
        ctx.check(wd.close(S.info.err_history, R.info.err_history, k=1e2), "later-optimization-differs", lambda: wd.diff(S.info.err_history, R.info.err_history))
    unchanged(ctx, S, bits, {"err": "an error evaluation", "lin": "a linearization"}.get(k, k), None)
    for n in S.vars:
        ctx.check(wd.close(S.vars[n].tensor, R.vars[n].tensor, k=1e2), "history-differs", lambda: n + " " + wd.diff(S.vars[n].tensor, R.vars[n].tensor))


def unchanged(ctx, S, bits, what, err):
    for n, (x, rg) in bits.items():
        y = S.vars[n].tensor
        ctx.check(wd.same_bits(y, x) and y.requires_grad == rg, "variable-changed",
                  lambda: f"{n} changed by {what} that {'failed: ' + repr(err)[:80] if err is not None else 'succeeded'}: {tuple(x.shape)} {rg} -> {tuple(y.shape)} {y.requires_grad}",
                  failed=err is not None, role={v["n"]: v["role"] for v in S.spec["vars"]}[n])


def evaluated(ctx, S, op, i):
    """errors and jacobians of single cost functions: a query, whatever the autodiff mode and wherever it fails"""
    from .c01 import clone_exec
    names = sorted(S.obj.cost_functions)
    names = [n for j, n in enumerate(names) if j == op["s"] % len(names) or (op["s"] >> (4 + j)) & 1]
    how = ["jacobians", "jacobians", "weighted_jacobians_error", "error", "weighted_error"][(op["s"] >> 2) % 5]
    bits = {n: (v.tensor.detach().clone(), v.tensor.requires_grad) for n, v in S.vars.items()}
    fn = lambda w: [getattr(w.obj.cost_functions[n], how)() for n in names]  # noqa
    f = op.get("f")
    _, err = hist.guarded(ctx, f, lambda: fn(S), clone_exec(S, fn) if f else None)
    ctx.ev(i, "eval", how, err is not None)
    ctx.state("eval", how, bool(f), type(err).__name__)
    ctx.nontriv = True
    unchanged(ctx, S, bits, how + "()", err)


def masked(ctx, S, op, i):
    """masked_jacobians() and masked_variables() of one cost function: evaluated as if the variables only had the masked
    batch elements, with every variable back in place afterwards, also when entering the mask is refused or fails"""
    from .c01 import clone_exec
    names = sorted(S.obj.cost_functions)
    name = names[op["s"] % len(names)]
    B = S.obj.batch_size if op["s"] % 5 else 3
    mask = torch.tensor([bool((op["s"] >> (3 + j)) & 1) for j in range(B)])
    block = bool((op["s"] >> 2) & 1)
    bits = {n: (v.tensor.detach().clone(), v.tensor.requires_grad) for n, v in S.vars.items()}

    def cvars(c):
        return list(c.optim_vars) + list(c.aux_vars)

    def fn(w):
        c = w.obj.cost_functions[name]
        if not block:
            return th.masked_jacobians(c, mask)
        with th.masked_variables(cvars(c), mask):
            return [v.tensor for v in cvars(c)]

    c = S.obj.cost_functions[name]
    fits = all(v.shape[0] == mask.shape[0] for v in cvars(c))
    f, err, out = op.get("f"), None, None
    try:
        out, err = hist.guarded(ctx, f, lambda: fn(S), clone_exec(S, fn) if f else None)
    except (AssertionError, RuntimeError, IndexError, ValueError) as e:
        # a mask must have the batch size of every variable; cost functions need not support what a mask makes of others
        if fits and not isinstance(e, RuntimeError):
            raise
        if fits and mask.any() and mask.all():
            raise
        ctx.fault("refused_mask")
        err = e
    ctx.ev(i, "mask", err is not None)
    ctx.state("mask", block, fits, bool(f), type(err).__name__, int(mask.sum()))
    ctx.nontriv = True
    for n, (x, rg) in bits.items():
        y = S.vars[n].tensor
        ctx.check(wd.same_bits(y, x) and y.requires_grad == rg, "variable-changed",
                  lambda: f"{n} changed by a masked evaluation that {'failed: ' + repr(err)[:80] if err is not None else 'succeeded'}",
                  failed=err is not None, role={v["n"]: v["role"] for v in S.spec["vars"]}[n])
    if err is not None or ctx.viol:
        return
    if not fits:
        ctx.check(not mask.any(), "bad-mask-accepted", lambda: f"{name} accepted a mask of {B} for {[tuple(v.shape) for v in cvars(c)]}")
        return
    if block:
        for v, y in zip(cvars(c), out):
            ctx.check(torch.equal(y, v.tensor[mask]), "mask-wrong", lambda: f"{v.name} inside the mask: {tuple(y.shape)} for {int(mask.sum())} of {tuple(v.shape)}")
        return
    jacs, e = out
    rj, re = c.jacobians()
    full = mask.view(-1, 1)
    ctx.check(wd.close(e, torch.where(full, re, torch.zeros_like(re))), "masked-error-wrong", lambda: f"{name} masked {mask.tolist()}: {e} vs {re}"[:300])
    for a, b in zip(jacs, rj):
        ctx.check(wd.close(a, torch.where(full.unsqueeze(-1), b, torch.zeros_like(b))), "masked-jacobians-wrong", lambda: f"{name} masked {mask.tolist()}")


def hash_order(n, s):
    return (sum(map(ord, n)) * 7919 + s) % 1009


def shrink(case):
    from .c01 import shrink as s
    yield from s(case)
