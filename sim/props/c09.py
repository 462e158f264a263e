"""C09 - copies are equivalent and fully isolated."""
import copy as cp

import torch
import theseus as th

from .. import hist, world as wd
from ..faults import HOOK

RUNS = {"quick": 640, "thorough": 30000}
RULE = ("a run is 6-22 operations (copy objective / deepcopy / copy a cost function, weight or variable, copies of copies, updates, masked updates, in-place edits of "
        "tensors, error and linearization requests with faults inside, optimization, erase, dtype conversion, vectorization on/off, updates of copied parts) on a family of "
        "objectives descending from one; after each operation every variable of every family member is compared bit for bit with a shadow, "
        "and errors with objectives built from scratch; non-trivial if at least one copy was made and one later operation changed one side")
REAL = ["Objective.copy", "every _copy_impl of cost functions, weights, variables and Lie groups", "Vectorize", "Levenberg-Marquardt"]
STUB = ["user cost functions and weights", "tensor allocator (fault seam)"]
ASSUMPTIONS = ["in-place edits are followed by Variable.update so that vectorization notices them"]

MAXSIDES = 5


def gen(rng, tier, i):
    spec = wd.gen_spec(rng, nextra=(1, 6), nv=(1, 3), akw=0.4, shared=rng.choice([0.3, 0.7]), zero=0.15, dtype=rng.choice(["float64", "float64", "float32"]))
    ops = []
    for _ in range(rng.randint(6, 22)):
        k = rng.wchoice([("copy", 4), ("deepcopy", 1), ("copyfn", 3), ("copyw", 1.5), ("copyvar", 1.5), ("upd", 4), ("mask", 1), ("updall", 1.5), ("inplace", 4), ("err", 2),
                         ("lin", 2), ("opt", 1.5), ("pair", 1.2), ("erase", 1), ("to", 0.8), ("vec", 1), ("editcopy", 3)])
        o = dict(op=k, side=rng.randint(0, 99), s=rng.seed_int(), g=rng.p(0.3))
        if k in ("upd", "mask", "inplace"):
            o["names"] = hist.gen_names(rng, spec, rng.choice([0.2, 0.5]))
        if k == "upd":
            o["rg"] = rng.p(0.3)
        if k == "mask":
            o["mask"] = hist.gen_mask(rng, 6)
        if k == "updall":
            o["b"] = rng.choice([1, 2, 3, 5])
        if k == "copy":
            o["vec"] = rng.p(0.4)
        if k in ("err", "lin", "copy", "opt"):
            o["f"] = hist.gen_fault(rng, 0.2)
        ops.append(o)
    return dict(spec=spec, ops=ops, vec=rng.p(0.5))


class Side:
    """one objective of the family and the tensors its variables must hold"""

    def __init__(self, obj, spec, dtype_name):
        self.obj, self.spec, self.dtype_name = obj, spec, dtype_name
        self.dtype = wd.DT[dtype_name]
        self.bind()
        self.refresh()

    def bind(self):
        self.vars = {v.name: v for v in list(self.obj.optim_vars.values()) + list(self.obj.aux_vars.values())}
        self.optim = [v["n"] for v in self.spec["vars"] if v["role"] == "o" and v["n"] in self.obj.optim_vars]

    def refresh(self):
        self.model = {n: v.tensor.detach().clone() for n, v in self.vars.items()}


def funs(obj):
    return list(obj)


def structure(obj):
    ws = []
    for f in funs(obj):
        if not any(f.weight is w for w in ws):
            ws.append(f.weight)
    return [(type(f).__name__, f.name, f.dim(), [v.name for v in f.optim_vars], [v.name for v in f.aux_vars], type(f.weight).__name__, f.weight.name,
             [v.name for v in f.weight.aux_vars], [i for i, w in enumerate(ws) if w is f.weight][0],
             [(type(v).__name__, tuple(v.shape), v.dtype) for g in (f, f.weight) for v in list(g.optim_vars) + list(g.aux_vars)]) for f in funs(obj)]


def storages(vs):
    return {v.tensor.untyped_storage().data_ptr() for v in vs if v.tensor.numel()}


def tensors_of(f):
    return list(f.optim_vars) + list(f.aux_vars) + list(f.weight.optim_vars) + list(f.weight.aux_vars)


def bcast(S, n, x):
    return x


def run(case, ctx):
    spec = case["spec"]
    ctx.state(wd.describe(spec), spec["B"], spec["dtype"])
    HOOK.reset()
    W = wd.build(spec, vectorize=case.get("vec"))
    W.obj.update()
    sides = [Side(W.obj, spec, spec["dtype"])]
    parts = []  # (kind, copy, source side) of copied functions, weights, variables
    ncopies = changed = 0
    for i, op in enumerate(case["ops"] + [dict(op="final", side=0, s=1, g=False)]):
        ctx.step()
        k = op["op"]
        S = sides[op["side"] % len(sides)]
        where = dict(op=k)
        ctx.ev(i, k, op["side"] % len(sides))
        ctx.state(k, op["side"] % len(sides))
        f = op.get("f")
        touched = None
        if k in ("copy", "deepcopy"):
            fn = lambda: S.obj.copy() if k == "copy" else cp.deepcopy(S.obj)  # noqa
            new, e = hist.guarded(ctx, f, fn, (lambda: S.obj.copy()) if f else None)
            if e is None and len(sides) < MAXSIDES:
                ncopies += 1
                ctx.check(structure(new) == structure(S.obj), "copy-structure-differs", lambda: f"step {i}: {structure(new)} expected {structure(S.obj)}", **where)
                if ctx.viol:
                    return
                if op.get("vec"):
                    th.Vectorize(new)
                    new.update()
                N = Side(new, S.spec, S.dtype_name)
                N.obj.update()
                for n in S.vars:
                    ctx.check(n in N.vars and wd.same_bits(N.vars[n].tensor, S.model[n]), "copy-value-differs", n, **where)
                    ctx.check(N.vars[n] is not S.vars[n], "copy-shares-variable", n, **where)
                ctx.check(new.batch_size == S.obj.batch_size, "copy-batch-size-differs", lambda: f"{new.batch_size} expected {S.obj.batch_size}", **where)
                for g in funs(new):
                    for v in tensors_of(g):
                        ctx.check(N.vars.get(v.name) is v, "copy-not-relinked", f"{g.name}: {v.name} is not the copied objective's own variable", **where)
                    for h in funs(S.obj):
                        ctx.check(g is not h and g.weight is not h.weight, "copy-shares-function", g.name, **where)
                sh = storages(N.vars.values()) & storages(S.vars.values())
                ctx.check(not sh, "copy-shares-storage", "a tensor of the copy shares memory with the original", **where)
                ctx.check(new.dtype == S.obj.dtype, "copy-dtype-differs", "", **where)
                sides.append(N)
                check_error(ctx, N, i, k)
        elif k == "copyfn":
            fs = funs(S.obj)
            g = fs[op["s"] % len(fs)]
            keep = bool(op["s"] >> 8 & 1)
            c = g.copy(new_name="cc" if op["s"] >> 9 & 1 else None, keep_variable_names=keep)
            check_fn_copy(ctx, g, c, keep, where)
            parts.append(("fn", c, {}))
        elif k == "copyw":
            fs = funs(S.obj)
            w = fs[op["s"] % len(fs)].weight
            c = w.copy()
            a, b = list(w.aux_vars), list(c.aux_vars)
            ctx.check(type(c) is type(w) and len(a) == len(b) and all(x is not y and wd.same_bits(x.tensor, y.tensor) for x, y in zip(a, b)), "weight-copy-differs", w.name, **where)
            ctx.check(not storages(a) & storages(b), "copy-shares-storage", w.name, **where)
            parts.append(("w", c, {}))
        elif k == "copyvar":
            n = sorted(S.vars)[op["s"] % len(S.vars)]
            v = S.vars[n]
            c = v.copy() if op["s"] >> 7 & 1 else cp.deepcopy(v)
            ctx.check(type(c) is type(v) and wd.same_bits(c.tensor, v.tensor), "variable-copy-differs", n, **where)
            ctx.check(not storages([v]) & storages([c]), "copy-shares-storage", n, **where)
            parts.append(("v", c, {}))
        elif k == "editcopy":
            if parts:
                kind, c, _ = parts[op["s"] % len(parts)]
                vs = [c] if kind == "v" else (list(c.optim_vars) + list(c.aux_vars) + (tensors_of(c) if kind == "fn" else []))
                with torch.no_grad():
                    for v in vs:
                        if v.tensor.requires_grad and v.tensor.is_leaf:
                            continue
                        v.tensor.detach().mul_(0.5)
                        v.update(v.tensor.clone() * 0.5)
                changed += 1
        elif k in ("upd", "mask", "updall"):
            t = fresh(S, op)
            if k == "mask":
                cur = S.obj.batch_size
                m = torch.tensor(([bool(x) for x in op["mask"]] * 2)[:cur])
                t = {n: x for n, x in t.items() if x.shape[0] == cur and S.vars[n].shape[0] == cur}
                S.obj.update(t, batch_ignore_mask=m)
                for n, x in t.items():
                    S.model[n] = torch.where(m.view((-1,) + (1,) * (x.ndim - 1)), S.model[n], x.detach())
            else:
                S.obj.update(t)
                for n, x in t.items():
                    S.model[n] = x.detach().clone()
            changed += 1
        elif k == "inplace":
            with torch.no_grad():
                for n in op["names"]:
                    v = S.vars.get(n)
                    if v is None or v.tensor.requires_grad:
                        continue
                    x = wd.rand_inputs(S.spec, op["s"], names=[n], b=v.shape[0])[n].to(S.dtype)
                    if x.shape != v.shape:
                        continue
                    own = v.tensor.clone()
                    v.update(own)
                    v[:] = x
                    v.update(v.tensor)
                    S.model[n] = x.clone()
            changed += 1
        elif k in ("err", "lin"):
            with torch.set_grad_enabled(op["g"]):
                fn = (lambda: S.obj.error()) if k == "err" else (lambda: hist.linearize(S.obj))
                out, e = hist.guarded(ctx, f, fn, fn if f else None)
            if e is None and k == "lin":
                tw = hist.twin(S)
                tw.obj.update()
                A, b = hist.linearize(tw.obj, list(S.obj.optim_vars))
                ctx.check(wd.close(out[0], A) and wd.close(out[1], b), "linearization-differs", lambda: wd.diff(out[0], A), **where)
        elif k == "opt":
            with torch.no_grad():
                out, e = hist.guarded(ctx, f, lambda: optimize(S.obj), (lambda: S.obj.error()) if f else None)
            S.refresh()
            touched = S
            changed += 1
        elif k == "pair" and len(sides) < MAXSIDES:
            c = S.obj.copy()
            if S.obj.vectorized:
                th.Vectorize(c)
            c.update()
            ok = finite(S)
            with torch.no_grad():
                N = Side(c, S.spec, S.dtype_name)
                first, second = (S, N) if op["g"] else (N, S)
                optimize(first.obj)
                optimize(second.obj)
            if ok:
                for n in S.optim:
                    ctx.check(wd.close(S.vars[n].tensor, N.vars[n].tensor, k=10), "copy-optimizes-differently", lambda: n + " " + wd.diff(S.vars[n].tensor, N.vars[n].tensor), **where)
            S.refresh()
            changed += 1
        elif k == "erase":
            fs = funs(S.obj)
            if len(fs) > 2:
                g = fs[op["s"] % len(fs)]
                S.obj.erase(g.name)
                if not S.obj.optim_vars:
                    return
                S.spec = wd.gc(dict(S.spec, c=[c for c in S.spec["c"] if c["n"] != g.name]))
                S.bind()
                S.model = {n: x for n, x in S.model.items() if n in S.vars}
                if S.obj.vectorized:
                    S.obj.disable_vectorization()
                S.obj.update()
                changed += 1
        elif k == "to":
            S.dtype_name = "float32" if S.dtype_name == "float64" else "float64"
            S.dtype = wd.DT[S.dtype_name]
            S.obj.to(S.dtype)
            S.model = {n: x.to(S.dtype) for n, x in S.model.items()}
            changed += 1
        elif k == "vec":
            S.obj.disable_vectorization()
            if op["s"] & 1:
                th.Vectorize(S.obj)
            S.obj.update()
        ctx.nontriv = ctx.nontriv or (ncopies > 0 and changed > 0)
        for j, T in enumerate(sides):
            for n, v in T.vars.items():
                ctx.check(wd.same_bits(v.tensor, T.model[n]), "operation-leaked-to-other-side" if T is not S else "variable-differs",
                          lambda: f"step {i} ({k} on #{op['side'] % len(sides)}): {n} of #{j}: " + wd.diff(v.tensor, T.model[n]), **where)
        if k in ("err", "editcopy", "inplace", "upd", "final", "opt", "to", "mask") and not ctx.viol:
            for T in sides:
                check_error(ctx, T, i, k)
        if ctx.viol:
            return


def finite(S):
    with torch.no_grad():
        e = S.obj.error()
    return bool(torch.isfinite(e).all()) and float(e.abs().max()) < 1e3 and S.dtype == torch.float64


def optimize(obj):
    o = th.LevenbergMarquardt(obj, max_iterations=2, abs_err_tolerance=0, rel_err_tolerance=0)
    o.optimize(damping=0.5)


def fresh(S, op):
    t = wd.rand_inputs(S.spec, op["s"], names=op.get("names"), b=op.get("b"))
    t = {n: x.to(S.dtype) for n, x in t.items() if n in S.vars}
    cur = S.obj.batch_size
    for n in list(t):
        if op.get("b") is None and t[n].shape[0] != 1 and t[n].shape[0] != cur:
            t[n] = wd.rand_inputs(S.spec, op["s"], names=[n], b=cur)[n].to(S.dtype) if cur > 1 else t[n][:1]
        if op.get("rg"):
            t[n].requires_grad_(True)
    return t


def check_error(ctx, T, i, k):
    tw = hist.twin(T)
    tw.obj.update()
    with torch.no_grad():
        a, b = T.obj.error(), tw.obj.error()
    ctx.ev(a)
    ctx.check(wd.close(a, b), "error-differs", lambda: f"step {i} ({k}): " + wd.diff(a, b), op=k)


def check_fn_copy(ctx, g, c, keep, where):
    a, b = tensors_of(g), tensors_of(c)
    name = type(g).__name__
    if not ctx.check(type(c) is type(g) and len(a) == len(b) and type(c.weight) is type(g.weight) and c.dim() == g.dim(), "function-copy-differs", name, **where):
        return
    for x, y in zip(a, b):
        ctx.check(type(x) is type(y) and wd.same_bits(x.tensor, y.tensor), "function-copy-differs", f"{name}: {x.name} / {y.name}", **where)
        ctx.check(x is not y, "copy-shares-variable", f"{name}: {x.name}", **where)
    if keep:
        p, q = list(g.optim_vars) + list(g.aux_vars), list(c.optim_vars) + list(c.aux_vars)
        ctx.check([v.name for v in p] == [v.name for v in q], "function-copy-names-differ", name, **where)
    ctx.check(not storages(a) & storages(b), "copy-shares-storage", name, **where)
    with torch.no_grad():
        e1, e2 = g.weighted_error(), c.weighted_error()
        ctx.check(wd.close(e1, e2), "function-copy-error-differs", lambda: name + " " + wd.diff(e1, e2), **where)
        (j1, k1), (j2, k2) = recorded(g.weighted_jacobians_error), recorded(c.weighted_jacobians_error)
        ctx.check(k1 == k2, "function-copy-differentiates-differently", lambda: f"{name}: options {k2}, the original uses {k1}", **where)
        ctx.check(all(wd.close(x, y) for x, y in zip(j1[0], j2[0])) and wd.close(j1[1], j2[1]), "function-copy-jacobians-differ", name, **where)


def recorded(f):
    """what f returns and the options of every torch.autograd.functional.jacobian call it made"""
    F = torch.autograd.functional
    real, log = F.jacobian, []

    def jacobian(func, inputs, create_graph=False, strict=False, vectorize=False, strategy="reverse-mode"):
        log.append((create_graph, strict, vectorize, strategy))
        return real(func, inputs, create_graph=create_graph, strict=strict, vectorize=vectorize, strategy=strategy)

    F.jacobian = jacobian
    try:
        return f(), log
    finally:
        F.jacobian = real


def shrink(case):
    for s in wd.shrink_spec(case["spec"]):
        c = dict(case, spec=s)
        keep = {v["n"] for v in s["vars"]}
        c["ops"] = []
        for o in case["ops"]:
            o = dict(o)
            if "names" in o:
                o["names"] = [n for n in o["names"] if n in keep]
                if not o["names"]:
                    continue
            c["ops"].append(o)
        yield c
