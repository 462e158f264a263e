"""Histories of objective-level calls with faults, against twins evaluated cost function by cost function."""
import warnings

import torch
import theseus as th

from . import world as wd
from .core import SIM_FAULTS, SimInterrupt
from .faults import EXC, HOOK, OpFault


# ------------------------------------------------------------------ faults inside one call
def guarded(ctx, f, real, dry=None):
    """Runs real() with fault f = {k, at in (0,1)}. Returns (result, exception)."""
    if not f:
        return real(), None
    k = f["k"]
    if k == "alloc":
        n = 1
        if dry is not None:
            with OpFault(0) as c:
                try:
                    dry()
                except Exception:
                    pass
            n = max(1, c.n)
        at = 1 + int(f["at"] * n)
        m = OpFault(at)
        try:
            with m:
                out = real()
            err = None
        except Exception as e:  # noqa
            out, err = None, e
        if m.fired:
            ctx.fault("alloc_failure_in_tensor_op")
        elif err is not None:
            raise err
        return out, err if m.fired else None
    # user-code failure
    n = 1
    if dry is not None:
        HOOK.arm(0)
        try:
            dry()
        except Exception:
            pass
        n = HOOK.n
    if n < 1:
        return real(), None
    HOOK.arm(1 + int(f["at"] * n), EXC[k])
    try:
        out = real()
        err = None
    except BaseException as e:  # noqa
        out, err = None, e
    fired = HOOK.fired
    HOOK.disarm()
    HOOK.fired = False
    if fired:
        ctx.fault({"user": "user_code_raises", "interrupt": "user_code_interrupted", "runtime": "user_code_raises_runtime",
                   "value": "user_code_raises_value", "notimpl": "user_code_not_implemented"}.get(k, k))
        if err is None:
            ctx.probe("fault_absorbed")
        return out, err
    if err is not None:
        raise err
    return out, None


def gen_fault(rng, p=0.3, kinds=("alloc", "alloc", "user", "interrupt", "value")):
    if not rng.p(p):
        return None
    return dict(k=rng.choice(list(kinds)), at=round(rng.random(), 4))


# ------------------------------------------------------------------ observations
def linearize(obj, names=None):
    o = None
    if names is not None:
        o = th.VariableOrdering(obj, default_order=False)
        for n in names:
            o.append(obj.optim_vars[n])
    lin = th.DenseLinearization(obj, ordering=o)
    lin.linearize()
    return lin.A, lin.b


def twin(W, tensors=None, requires=True):
    """unvectorized objective holding the same (detached) tensors; leaves require grad like the originals do"""
    t = {}
    for n, v in W.vars.items():
        x = v.tensor.detach().clone()
        if requires and v.tensor.requires_grad:
            x.requires_grad_(True)
        t[n] = x
    if tensors:
        t.update(tensors)
    return wd.build(W.spec, tensors=t, dtype=W.dtype_name)


def grads(loss, vs):
    vs = [v for v in vs if v.requires_grad]
    if not vs or not loss.requires_grad:
        return None
    g = torch.autograd.grad(loss, vs, allow_unused=True, retain_graph=True)
    return [torch.zeros_like(v) if x is None else x for x, v in zip(g, vs)]


def probe_loss(ts, seed):
    g = torch.Generator().manual_seed(seed)
    tot = 0.0
    for t in ts:
        tot = tot + (t * torch.rand(t.shape, generator=g, dtype=t.dtype)).sum()
    return tot


# ------------------------------------------------------------------ op generation
def gen_names(rng, spec, p=0.5):
    names = [v["n"] for v in spec["vars"]]
    c = [n for n in names if rng.p(p)]
    return c or [rng.choice(names)]


def gen_mask(rng, b):
    return [int(rng.p(0.5)) for _ in range(b)]


def clamp_weights(spec, tensors):
    return tensors
