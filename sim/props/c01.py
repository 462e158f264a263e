"""C01 - vectorization never changes what an objective computes."""
import torch
import theseus as th

from .. import hist, world as wd
from ..core import Rng
from ..faults import HOOK

RUNS = {"quick": 640, "thorough": 30000}
RULE = ("a run is one generated objective plus a history of 4-14 calls (updates, masked updates, error / linearization requests in "
        "both autograd modes, temporary evaluations, retractions, optimizer steps, re-vectorization, refused calls), some interrupted by a "
        "fault; non-trivial if at least one linearization was compared after at least one update or failed call")
REAL = ["theseus.core (Objective, Vectorize, cost functions, weights, robust costs)", "theseus.geometry", "theseus.embodied costs",
        "DenseLinearization", "GaussNewton / LevenbergMarquardt"]
STUB = ["user cost functions and weights (harness-written, hooked)", "tensor allocator (fault seam: torch dispatch)"]
ASSUMPTIONS = ["observations go through Objective.error() and DenseLinearization.linearize()",
               "unvectorized evaluation of a freshly built objective is the reference"]
OPS = [("upd", 5), ("updall", 2), ("mask", 2), ("vupd", 1), ("err", 3), ("lin", 5), ("tmp", 2), ("perm", 1), ("retract", 3),
       ("opt", 0.6), ("revec", 0.4), ("bad", 1), ("metric", 1), ("setitem", 1), ("upf", 0.7), ("mix", 0.8)]


def gen(rng, tier, i):
    spec = wd.gen_spec(rng, nextra=(1, 7), nv=(1, 4), akw=0.3, gpdt=0.5, shared=rng.choice([0.2, 0.5, 0.8]), zero=rng.choice([0.0, 0.2, 0.5]),
                       optmix=rng.choice([0, 0, 0, 0.2, 0.5]),
                       dtype="float64" if rng.p(0.85) else "float32")
    frate = rng.choice([0.0, 0.0, 0.2, 0.4])
    ops = []
    for _ in range(rng.randint(4, 14)):
        k = rng.wchoice(OPS)
        o = dict(op=k, g=rng.p(0.5), s=rng.seed_int())
        if k in ("upd", "mask", "vupd", "tmp", "perm", "bad", "setitem", "upf"):
            o["names"] = hist.gen_names(rng, spec, rng.choice([0.15, 0.5, 0.9]))
            o["rg"] = rng.p(0.5)
        if k == "updall":
            o["b"] = rng.choice([None, None, 1, 2, 3, 5])
            o["rg"] = rng.p(0.5)
        if k in ("mask", "retract"):
            o["mask"] = hist.gen_mask(rng, 5)
        if k == "retract":
            o["force"] = rng.p(0.2)
            o["nomask"] = rng.p(0.5)
            o["sc"] = rng.choice([0.1, 1.0, 4.0])
        if k == "opt":
            o["alg"] = rng.choice(["gn", "lm", "lma"])
        if k not in ("bad", "revec", "vupd", "setitem", "upf", "mix"):
            f = hist.gen_fault(rng, frate)
            if f:
                o["f"] = f
        ops.append(o)
    return dict(spec=spec, ops=ops, start_grad=rng.p(0.5))


def run(case, ctx):
    spec = case["spec"]
    ctx.state(wd.describe(spec), spec["B"], spec["dtype"])
    W = wd.build(spec, vectorize=True)
    W.dtype_name = spec["dtype"]
    HOOK.reset()
    with torch.set_grad_enabled(case.get("start_grad", True)):
        W.obj.update()
    touched = 0
    for i, op in enumerate(case["ops"] + [dict(op="lin", g=False, s=1), dict(op="lin", g=True, s=2), dict(op="err", g=True, s=3), dict(op="mix", g=False, s=len(case["ops"]))]):
        ctx.step()
        with torch.set_grad_enabled(bool(op["g"])):
            touched += do(ctx, W, op, i, touched)
        if ctx.viol:
            return


def fresh(W, op, b=None):
    t = wd.rand_inputs(W.spec, op["s"], names=op.get("names"), b=b)
    cur = max(v.tensor.shape[0] for v in W.vars.values())
    for n in list(t):
        if b is None and t[n].shape[0] != 1 and t[n].shape[0] != cur:
            # the objective's batch changed: give this variable the current batch size
            t[n] = wd.rand_inputs(W.spec, op["s"], names=[n], b=cur)[n] if cur > 1 else t[n][:1]
    if op.get("rg"):
        for n in t:
            t[n].requires_grad_(True)
    return t


def clone_exec(W, fn):
    """dry run of fn on an independent vectorized copy (to count fault sites)"""
    def dry():
        w = wd.build(W.spec, tensors=wd.snapshot(W), dtype=W.dtype_name, vectorize=True)
        w.dtype_name = W.dtype_name
        w.obj.update()
        fn(w)
    return dry


def do(ctx, W, op, i, touched):
    k = op["op"]
    f = op.get("f")
    obj = W.obj
    where = dict(op=k, mixed_attr=wd.mixed_attr(W.spec))

    def call(fn):
        out, e = hist.guarded(ctx, f, lambda: fn(W), clone_exec(W, fn) if f else None)
        ctx.ev(i, k, "fail" if e is not None else "ok")
        ctx.state(k, op["g"], type(e).__name__ if e is not None else "", op.get("rg"), bool(op.get("mask")))
        return out, e

    if k in ("upd", "updall", "mask", "perm"):
        t = fresh(W, op, b=op.get("b"))
        if k == "mask":
            cur = max(v.tensor.shape[0] for v in W.vars.values())
            m = torch.tensor([bool(x) for x in op["mask"]][:cur])
            if m.shape[0] < cur:
                m = torch.cat([m, torch.zeros(cur - m.shape[0], dtype=torch.bool)])
            t = {n: x for n, x in t.items() if x.shape[0] == cur and W.vars[n].tensor.shape[0] == cur}
            call(lambda w: w.obj.update(t, batch_ignore_mask=m))
        elif k == "perm":
            out, e = call(lambda w: w.obj.error(t, also_update=True))
            if e is None:
                cmp_error(ctx, W, out, op, where)
        else:
            call(lambda w: w.obj.update(t))
        return 1
    if k == "vupd":
        for n, x in fresh(W, op).items():
            W.vars[n].update(x)
        return 1
    if k == "setitem":
        with torch.no_grad():
            for n, x in fresh(W, dict(op, rg=False)).items():
                if W.vars[n].tensor.requires_grad:
                    continue
                if x.shape == W.vars[n].shape:
                    if op["s"] & 1:
                        W.vars[n].update(W.vars[n].tensor.clone())
                        W.obj.update()
                    j = op["s"] % x.shape[0]
                    W.vars[n].update(W.vars[n].tensor.clone()) if W.vars[n].tensor.stride()[0] == 0 else None
                    W.vars[n][j] = x[j]
        return 1
    if k == "upf":
        for n, x in fresh(W, dict(op, rg=False)).items():
            v = W.vars[n]
            if isinstance(v, th.SE2):
                v.update_from_x_y_theta(torch.cat([x[:, :2], torch.atan2(x[:, 3:], x[:, 2:3])], 1))
            elif isinstance(v, th.SE3):
                with th.no_lie_group_check(silent=True):
                    v.update_from_rot_and_trans(th.SO3(tensor=x[:, :, :3]), th.Point3(tensor=x[:, :, 3]))
            elif isinstance(v, th.SO2):
                v.update_from_angle(torch.atan2(x[:, 1:], x[:, :1]))
        return 1
    if k == "bad":
        t = fresh(W, op)
        n = sorted(t)[op["s"] % len(t)]
        t[n] = torch.cat([t[n], t[n]], dim=-1)
        try:
            obj.update(t)
            ctx.violate("bad-update-accepted", f"{n} accepted a tensor of the wrong shape", **where)
        except ValueError:
            ctx.fault("refused_update")
        return 1
    if k == "revec":
        obj.disable_vectorization()
        th.Vectorize(obj)
        return 1
    if k == "mix":
        mix(ctx, W, op, where)
        return 0
    if k == "metric":
        out, e = call(lambda w: w.obj.error_metric())
        if e is None:
            tw = hist.twin(W)
            tw.obj.update()
            ctx.check(wd.close(out, tw.obj.error_metric()), "metric", lambda: f"op {i}", **where)
        return 0
    if k == "err":
        out, e = call(lambda w: w.obj.error())
        if e is None:
            cmp_error(ctx, W, out, op, where)
        return int(e is not None)
    if k == "tmp":
        t = fresh(W, op)
        before = {n: v.tensor.detach().clone() for n, v in W.vars.items()}
        out, e = call(lambda w: w.obj.error(t, also_update=False))
        for n, x in before.items():
            ctx.check(wd.same_bits(W.vars[n].tensor, x), "temporary-evaluation-changed-variable", n, **where)
        if e is None:
            tw = hist.twin(W, tensors={n: x.detach().clone() for n, x in t.items()})
            tw.obj.update()
            ref = tw.obj.error()
            ctx.check(wd.close(out, ref), "temporary-error", lambda: wd.diff(out, ref), **where)
        return 1
    if k == "lin":
        out, e = call(lambda w: hist.linearize(w.obj))
        if e is not None:
            return 1
        tw = hist.twin(W)
        tw.obj.update()
        A, b = hist.linearize(tw.obj)
        ctx.nontriv = ctx.nontriv or touched > 0
        ok = ctx.check(wd.close(out[0], A), "jacobians-differ", lambda: wd.diff(out[0], A) + f" (op {i})", **where)
        ok &= ctx.check(wd.close(out[1], b), "linearization-error-differs", lambda: wd.diff(out[1], b) + f" (op {i})", **where)
        ctx.ev(out[0].detach(), out[1].detach())
        if ok and op["g"]:
            cmp_grads(ctx, W, tw, hist.probe_loss(out, op["s"]), hist.probe_loss((A, b), op["s"]), where)
        return 0
    if k == "retract":
        order = [obj.optim_vars[n] for n in W.optim]
        dof = sum(v.dof() for v in order)
        b = obj.batch_size
        g = torch.Generator().manual_seed(op["s"])
        delta = (torch.randn(b, dof, generator=g, dtype=torch.float64) * op["sc"]).to(W.dtype)
        m = None
        if not op.get("nomask"):
            m = torch.tensor(([bool(x) for x in op["mask"]] * 2)[:b])
        tw = hist.twin(W)
        tw.obj.update()
        fn = lambda w: w.obj.retract_vars_sequence(delta, [w.obj.optim_vars[n] for n in w.optim], ignore_mask=m, force_update=op["force"])  # noqa
        _, e = call(fn)
        if e is None:
            fn(tw)
            for n in W.optim:
                ctx.check(wd.close(W.vars[n].tensor, tw.vars[n].tensor), "retraction-differs",
                          lambda: n + " " + wd.diff(W.vars[n].tensor, tw.vars[n].tensor), **where)
        return 1
    if k == "opt":
        tw = hist.twin(W, requires=False)
        tw.obj.update()
        it = 2 if W.dtype == torch.float64 else 1

        def go(w):
            if op["alg"] == "gn":
                o = th.LevenbergMarquardt(w.obj, max_iterations=it, abs_err_tolerance=0, rel_err_tolerance=0)
                kw = dict(damping=0.3)
            else:
                o = th.LevenbergMarquardt(w.obj, max_iterations=it, abs_err_tolerance=0, rel_err_tolerance=0)
                kw = dict(damping=0.5, ellipsoidal_damping=True)
            o.optimize(**kw)
        with torch.no_grad():
            _, e = call(go)
            if e is None and not f:
                go(tw)
                for n in W.optim:
                    ctx.check(wd.close(W.vars[n].tensor, tw.vars[n].tensor, k=1e3), "optimizer-iterates-differ",
                              lambda: n + " " + wd.diff(W.vars[n].tensor, tw.vars[n].tensor), **where)
        return 1
    raise AssertionError(k)


def mix(ctx, W, op, where):
    """a cost function given some of its variables with batch size 1 acts as if they had been expanded"""
    rng = Rng("mix", op["s"])
    B = 3
    for f in list(W.obj.cost_functions.values()):
        a, b = f.copy(keep_variable_names=False), f.copy(keep_variable_names=False)
        inner = getattr(a, "cost_function", a)
        va, vb = [[v for g in (c, c.weight) for v in list(g.optim_vars) + list(g.aux_vars)] for c in (a, b)]
        # these kinds do not take poses of another batch size than the rest
        rigid = type(inner).__name__ in ("Collision2D", "EffectorObjectContactPlanar", "QuasiStaticPushingPlanar")
        poses = {id(v) for v in a.optim_vars} if rigid else set()
        done = {}
        with torch.no_grad():
            for x, y in zip(va, vb):
                if id(x) in done:
                    continue
                done[id(x)] = x
                t = x.tensor.detach()
                t = torch.cat([t] * B)[:B].clone()
                if t.is_floating_point() and t.ndim == 2 and isinstance(x, th.Vector):
                    t = t * torch.linspace(0.5, 1.5, B, dtype=t.dtype).view(B, 1)
                if rng.p(0.5) and id(x) not in poses:
                    x.update(t[:1])
                    y.update(t[:1].expand_as(t).clone())
                else:
                    x.update(t)
                    y.update(t.clone())
            r, s = a.weighted_jacobians_error(), b.weighted_jacobians_error()
            n = s[1].shape[0]
            full = lambda z: z.expand((n,) + tuple(z.shape[1:])) if z.shape[0] == 1 else z  # noqa
            ctx.probe("mixed_batches_compared")
            where = dict(where, cost=type(inner).__name__)
            ctx.check(wd.close(full(r[1]), s[1]), "mixed-batch-error", lambda: wd.diff(full(r[1]), s[1]), **where)
            for p, q in zip(r[0], s[0]):
                ctx.check(wd.close(full(p), q), "mixed-batch-jacobians", lambda: wd.diff(full(p), q), **where)


def cmp_error(ctx, W, out, op, where):
    tw = hist.twin(W)
    tw.obj.update()
    ref = tw.obj.error()
    ok = ctx.check(wd.close(out, ref), "error-vector-differs", lambda: wd.diff(out, ref), **where)
    ctx.ev(out.detach())
    if ok and op["g"]:
        cmp_grads(ctx, W, tw, hist.probe_loss((out,), op["s"]), hist.probe_loss((ref,), op["s"]), where)


def cmp_grads(ctx, W, tw, l1, l2, where):
    names = [n for n, v in W.vars.items() if v.tensor.requires_grad]
    g2 = hist.grads(l2, [tw.vars[n].tensor for n in names])
    if g2 is None or not any(bool((x != 0).any()) for x in g2):
        return
    if not ctx.check(l1.requires_grad, "no-gradient-history", "the vectorized result carries no gradient history", **where):
        return
    g1 = hist.grads(l1, [W.vars[n].tensor for n in names])
    ctx.probe("gradients_compared")
    roles = {v["n"]: v["role"] for v in W.spec["vars"]}
    for n, a, b in zip(names, g1, g2):
        if roles[n] == "w":
            # zero-weighted terms are masked out by design: no gradient with respect to the weight itself there
            live = W.vars[n].tensor.detach().flatten(1).ne(0).any(dim=1)
            a, b = a[live], b[live]
        ctx.check(wd.close(a, b, k=1e2), "gradient-differs", lambda: n + " " + wd.diff(a, b), **where)


def shrink(case):
    for s in wd.shrink_spec(case["spec"]):
        c = dict(case)
        c["spec"] = s
        keep = {v["n"] for v in s["vars"]}
        c["ops"] = []
        for o in case["ops"]:
            o = dict(o)
            if "names" in o:
                o["names"] = [n for n in o["names"] if n in keep]
                if not o["names"]:
                    continue
            c["ops"].append(o)
        yield c
