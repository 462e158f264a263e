"""C10 - variable updates are exact, masked and all-or-nothing."""
import math
import warnings

import numpy as np
import torch
import theseus as th

from .. import hist, layers as ly, world as wd
from ..faults import HOOK, OpFault

RUNS = {"quick": 700, "thorough": 50000}
RULE = ("a run is 6-30 updates of one objective (whole, partial, masked with all mask patterns, batch-size changing, unknown names, direct on variables, through parameterised "
        "setters, through a layer) interleaved with refused ones (wrong shape, rank, dtype, inconsistent batch, failure of an allocation inside) and evaluations; "
        "a numpy model of every variable decides the expected value; non-trivial if at least one refused and one masked update happened")
REAL = ["Variable / Manifold / Lie group update paths", "Objective.update and batch resolution", "TheseusLayer.forward input path", "Vectorize"]
STUB = ["user cost functions and weights", "tensor allocator (fault seam)"]
ASSUMPTIONS = ["an update may be refused part-way through the dictionary: each variable is then entirely old or entirely new"]


def gen(rng, tier, i):
    spec = wd.gen_spec(rng, nextra=(1, 5), nv=(1, 3), shared=0.4, dtype=rng.choice(["float64", "float64", "float32"]), B=rng.choice([1, 2, 3, 4]),
                       embodied=rng.p(0.5))
    ops = []
    for _ in range(rng.randint(6, 30)):
        k = rng.wchoice([("upd", 5), ("mask", 5), ("all", 3), ("bad", 5), ("batch", 2), ("unknown", 1), ("var", 3), ("varmask", 2), ("setter", 2), ("badsetter", 1),
                         ("err", 1.5), ("lin", 0.7), ("layer", 1), ("badlayer", 1), ("fault", 1.5), ("tmp", 1), ("varvar", 1)])
        o = dict(op=k, s=rng.seed_int(), names=hist.gen_names(rng, spec, rng.choice([0.2, 0.5, 1.0])), order=rng.seed_int())
        o["b"] = rng.choice([None, None, None, 1, 2, 3, 5]) if k == "all" else None
        o["one"] = rng.p(0.25)  # some tensors with batch size 1
        o["mask"] = rng.choice([[0] * 6, [1] * 6, hist.gen_mask(rng, 6), hist.gen_mask(rng, 6)])
        o["how"] = rng.choice(["shape", "rank", "dtype", "batch", "rank1", "transposed", "flat"])
        o["g"] = rng.p(0.3)
        ops.append(o)
    return dict(spec=spec, ops=ops, vec=rng.p(0.6))


def masked(old, new, mask):
    """element by element"""
    if not any(mask):
        return new.copy()
    b = max(len(old), len(new), len(mask))
    out = []
    for j in range(b):
        o = old[j if len(old) > 1 else 0]
        n = new[j if len(new) > 1 else 0]
        m = mask[j if len(mask) > 1 else 0]
        out.append(o if m else n)
    return np.stack(out)


def npy(x):
    return x.detach().cpu().numpy().copy()


def eq(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def run(case, ctx):
    spec = case["spec"]
    ctx.state(wd.describe(spec), spec["B"], spec["dtype"])
    HOOK.reset()
    W = wd.build(spec, vectorize=case["vec"])
    W.dtype_name = spec["dtype"]
    W.obj.update()
    M = {n: npy(v.tensor) for n, v in W.vars.items()}
    lay = None
    refused = masks = 0
    held = {}  # every tensor the caller or a variable has ever held: an update replaces tensors, it never writes into them

    def hold(ts):
        for n, x in ts.items():
            if isinstance(x, torch.Tensor):
                held.setdefault(id(x), (n, x, npy(x)))

    other = torch.float32 if W.dtype == torch.float64 else torch.float64
    for i, op in enumerate(case["ops"]):
        ctx.step()
        k = op["op"]
        where = dict(op=k)
        hold({n: v.tensor for n, v in W.vars.items()})
        cur = max(len(x) for x in M.values())
        valid = True  # the state after this operation is consistent
        # ---- candidate tensors in a shuffled order
        t = wd.rand_inputs(spec, op["s"], names=[n for n in op["names"] if n in W.vars])
        for n in list(t):
            if len(t[n]) > 1 or (op["one"] is False and cur > 1 and op["s"] % 3 == 0):
                t[n] = wd.rand_inputs(spec, op["s"], names=[n], b=cur)[n] if cur > 1 else t[n][:1]
            elif op["one"]:
                t[n] = t[n][:1]
        names = list(t)
        wd_rng = np.random.RandomState(op["order"] % (2**31))
        wd_rng.shuffle(names)
        t = {n: t[n] for n in names}
        hold(t)
        if not t and k in ("upd", "mask", "bad", "var", "varmask", "fault", "tmp", "varvar", "unknown"):
            continue
        with torch.set_grad_enabled(op["g"]):
            if k == "upd":
                W.obj.update(t)
                M.update({n: npy(x) for n, x in t.items()})
            elif k == "all":
                t = wd.rand_inputs(spec, op["s"], names=list(W.vars), b=op["b"])
                if op["b"] is None:
                    t = {n: wd.rand_inputs(spec, op["s"], names=[n], b=cur)[n] if len(x) > 1 else x for n, x in t.items()}
                W.obj.update(t)
                M.update({n: npy(x) for n, x in t.items()})
            elif k == "mask":
                m = [bool(x) for x in op["mask"] * 9][:cur]
                ms = torch.tensor(m)
                W.obj.update(t, batch_ignore_mask=ms)
                for n, x in t.items():
                    M[n] = masked(M[n], npy(x), m)
                masks += any(m)
            elif k in ("bad", "badlayer"):
                if k == "badlayer":
                    t = wd.rand_inputs(spec, op["s"], names=list(W.vars))
                    t = {n: wd.rand_inputs(spec, op["s"], names=[n], b=cur)[n] if len(x) > 1 and cur > 1 else x[:1] for n, x in t.items()}
                    ks = list(t)
                    wd_rng.shuffle(ks)
                    t = {n: t[n] for n in ks}
                n = list(t)[op["order"] % len(t)]
                bad = spoil(t[n], op["how"], other, cur)
                if bad is None:
                    continue
                good = {a: npy(x) for a, x in t.items()}
                t[n] = bad
                old = dict(M)
                msk = torch.tensor([bool(x) for x in op["mask"] * 9][:cur]) if k == "bad" and op["s"] & 1 else None
                isbatch = op["how"] == "batch"
                if isbatch:
                    good[n] = npy(bad)
                    others = [x for a, x in M.items() if a != n]
                    if isbatch and not any(len(x) > 1 for a, x in M.items() if a not in t) and not any(len(x) > 1 for a, x in t.items() if a != n):
                        continue  # consistent after all
                    msk = None
                try:
                    if k == "bad":
                        W.obj.update(t, batch_ignore_mask=msk)
                    else:
                        lay = lay or mklayer(W)
                        with torch.no_grad():
                            lay.forward(t, optimizer_kwargs=dict(damping=0.5))
                    ctx.violate("bad-update-accepted", f"step {i}: {op['how']} for {n}: {tuple(bad.shape)} {bad.dtype}", how=op["how"], **where)
                except ValueError:
                    ctx.fault("refused_" + op["how"])
                    refused += 1
                new = {a: (good[a] if msk is None else masked(M[a], good[a], msk.tolist())) for a in t}
                if not isbatch:
                    new[n] = M[n]  # the offending one must be untouched
                whole(ctx, W, old, new, i, k)
                # restore a consistent state with the next valid update
                M = {a: npy(v.tensor) for a, v in W.vars.items()}
                t = wd.rand_inputs(spec, op["s"] + 1, names=list(W.vars), b=cur)
                W.obj.update(t)
                M = {a: npy(x) for a, x in t.items()}
            elif k == "fault":
                dry = wd.build(spec, tensors=wd.snapshot(W), dtype=W.dtype_name, vectorize=case["vec"])
                dry.obj.update()
                with OpFault(0) as c:
                    dry.obj.update(t)
                old = dict(M)
                at = 1 + int((op["order"] % 1000) / 1000 * max(1, c.n))
                f = OpFault(at)
                ms = torch.tensor([bool(x) for x in op["mask"] * 9][:cur]) if op["s"] & 1 else None
                try:
                    with f:
                        W.obj.update(t, batch_ignore_mask=ms)
                except RuntimeError:
                    if not f.fired:
                        raise
                    ctx.fault("alloc_failure_in_update")
                new = {a: (npy(x) if ms is None else masked(M[a], npy(x), ms.tolist())) for a, x in t.items()}
                whole(ctx, W, old, new, i, k)
                M = {a: npy(v.tensor) for a, v in W.vars.items()}
                W.obj.update()
            elif k == "batch":
                # a batch-size change is only accepted if everything that is batched follows
                t = wd.rand_inputs(spec, op["s"], names=list(W.vars), b=cur + 1)
                nb = [n for n in t if len(t[n]) > 1]
                leave = nb[op["order"] % len(nb)] if nb else None
                if leave is None or len(M[leave]) == 1 or len(nb) < 2:
                    continue
                del t[leave]
                try:
                    W.obj.update(t)
                    ctx.violate("inconsistent-batch-accepted", f"step {i}: {leave} kept batch {len(M[leave])}", **where)
                except ValueError:
                    ctx.fault("refused_inconsistent_batch")
                    refused += 1
                old = dict(M)
                whole(ctx, W, old, {n: npy(x) for n, x in t.items()}, i, k)
                W.obj.update(wd.rand_inputs(spec, op["s"], names=[leave], b=cur + 1))
                t.update(wd.rand_inputs(spec, op["s"], names=[leave], b=cur + 1))
                # names not in t keep theirs: complete it
                M = {n: npy(v.tensor) for n, v in W.vars.items()}
            elif k == "unknown":
                t["no_such_variable"] = torch.zeros(cur + 3, 2, dtype=W.dtype)
                W.obj.update(t)
                del t["no_such_variable"]
                M.update({n: npy(x) for n, x in t.items()})
            elif k in ("var", "varvar"):
                for n, x in t.items():
                    W.vars[n].update(x if k == "var" else W.vars[n].copy() if False else mkvar(W.vars[n], x))
                M.update({n: npy(x) for n, x in t.items()})
            elif k == "varmask":
                m = [bool(x) for x in op["mask"] * 9][:cur]
                for n, x in t.items():
                    W.vars[n].update(x, batch_ignore_mask=torch.tensor(m))
                    M[n] = masked(M[n], npy(x), m)
                masks += any(m)
            elif k in ("setter", "badsetter"):
                for n, x in t.items():
                    r = setter(ctx, W.vars[n], x, op, k, other, i)
                    if r is not None:
                        M[n] = npy(W.vars[n].tensor) if r else M[n]
                        refused += not r
            elif k in ("err", "lin"):
                W.obj.error() if k == "err" else hist.linearize(W.obj)
            elif k == "tmp":
                W.obj.error(t, also_update=False)
            elif k == "layer":
                lay = lay or mklayer(W)
                t = wd.rand_inputs(spec, op["s"], names=list(W.vars), b=cur)
                try:
                    with torch.no_grad():
                        lay.forward(t, optimizer_kwargs=dict(damping=0.5))
                except ValueError:
                    raise
                for n, x in t.items():
                    M[n] = npy(x) if n not in W.optim else npy(W.vars[n].tensor)
            ctx.ev(i, k, [M[n] for n in sorted(M)])
            ctx.state(k, op["how"] if k.startswith("bad") else "", bool(t))
            if ctx.viol:
                return
            hold(t)
            for n, x, c in held.values():
                ctx.check(eq(npy(x), c), "held-tensor-modified", lambda: f"step {i} ({k}): a tensor of {n} held before changed from {c.tolist()} to {x.tolist()}", **where)
            for n, v in W.vars.items():
                ctx.check(eq(npy(v.tensor), M[n]), "variable-value-differs", lambda: f"step {i} ({k}): {n} {npy(v.tensor)} expected {M[n]}", **where)
            sizes = {len(x) for x in M.values()} - {1}
            if k not in ("var", "varvar", "varmask", "setter", "badsetter") and len(sizes) <= 1:
                ctx.check(W.obj.batch_size == (sizes.pop() if sizes else 1), "batch-size-differs", lambda: f"step {i} ({k}): {W.obj.batch_size}", **where)
            if ctx.viol:
                return
            if len({len(x) for x in M.values()} - {1}) <= 1:
                if i % 3 == 0 or k in ("bad", "badlayer", "batch", "fault"):
                    W.obj.update()
                    tw = hist.twin(W)
                    tw.obj.update()
                    with torch.no_grad():
                        a, b = W.obj.error(), tw.obj.error()
                    ctx.check(wd.close(a, b), "error-after-update-differs", lambda: f"step {i} ({k}): " + wd.diff(a, b), **where)
                    A, B = hist.linearize(W.obj), hist.linearize(tw.obj)
                    ctx.check(wd.close(A[0], B[0]) and wd.close(A[1], B[1]), "linearization-after-update-differs", lambda: f"step {i} ({k})", **where)
            if ctx.viol:
                return
    ctx.nontriv = refused > 0 and masks > 0


def mklayer(W):
    return th.TheseusLayer(th.LevenbergMarquardt(W.obj, max_iterations=1), vectorize=W.obj.vectorized)


def mkvar(v, x):
    with th.no_lie_group_check(silent=True):
        return th.Variable(x, name="src") if not isinstance(v, th.Manifold) else type(v)(tensor=x)


def whole(ctx, W, old, new, i, k):
    """every variable is entirely old or entirely new"""
    for n, v in W.vars.items():
        a = npy(v.tensor)
        ok = eq(a, old[n]) or (n in new and eq(a, new[n]))
        ctx.check(ok, "refused-update-left-partial-value", lambda: f"step {i} ({k}): {n} = {a.tolist()} old {old[n].tolist()} new {new.get(n, old[n]).tolist()}", op=k)


def spoil(x, how, other, cur):
    if how == "shape":
        return torch.cat([x, x], dim=-1)
    if how == "rank":
        return x.unsqueeze(-1)
    if how == "rank1":
        return x.reshape(-1)
    if how == "flat":
        return x.reshape(x.shape[0], -1) if x.ndim > 2 else x.reshape(x.shape[0], 1, -1)
    if how == "transposed":
        return x.transpose(-1, -2).contiguous() if x.ndim > 2 and x.shape[-1] != x.shape[-2] else None
    if how == "dtype":
        return x.to(other)
    if how == "batch":
        return torch.cat([x[:1]] * (cur + 1)) if cur > 1 else None
    raise AssertionError(how)


def setter(ctx, v, x, op, k, other, i):
    """parameterised setters; returns True if applied, False if refused, None if not applicable"""
    old = npy(v.tensor)
    before = v._num_updates if hasattr(v, "_num_updates") else None  # noqa
    rs = np.random.RandomState(op["s"] % (2**31))
    b = len(x)
    ang = torch.from_numpy(rs.randn(b, 1)).to(x.dtype)
    xy = torch.from_numpy(rs.randn(b, 2)).to(x.dtype)
    q = rs.randn(b, 4)
    q = q / np.linalg.norm(q, axis=1, keepdims=True)
    xyz = rs.randn(b, 3)
    bad = k == "badsetter"
    try:
        if isinstance(v, th.SO2):
            v.update_from_angle(ang.to(other) if bad else ang)
            exp = np.stack([np.cos(ang[:, 0].numpy()), np.sin(ang[:, 0].numpy())], 1)
        elif isinstance(v, th.SE2):
            exp = np.concatenate([xy.numpy(), np.cos(ang.numpy()), np.sin(ang.numpy())], 1)
            if bad:
                if op["s"] & 2:
                    v.update_from_rot_and_trans(th.SO2(theta=ang), th.Point2(tensor=torch.cat([xy, xy, xy])))
                else:
                    v.update_from_x_y_theta(torch.cat([xy, ang], 1).to(other))
            else:
                v.update_from_x_y_theta(torch.cat([xy, ang], 1))
        elif isinstance(v, th.SO3):
            v.update_from_unit_quaternion(torch.from_numpy(q).to(other if bad else x.dtype))
            exp = quat(q)
        elif isinstance(v, th.SE3):
            if bad:
                with th.no_lie_group_check(silent=True):
                    v.update_from_rot_and_trans(th.SO3(tensor=torch.from_numpy(quat(q)).to(x.dtype)),
                                                th.Point3(tensor=torch.from_numpy(np.concatenate([xyz, xyz, xyz])).to(x.dtype)))
            else:
                v.update_from_x_y_z_quaternion(torch.from_numpy(np.concatenate([xyz, q], 1)).to(x.dtype))
            exp = np.concatenate([quat(q), xyz[:, :, None]], 2)
        else:
            return None
    except (ValueError, RuntimeError):
        if not bad:
            raise
        ctx.fault("refused_setter")
        ctx.check(eq(npy(v.tensor), old), "refused-update-left-partial-value", lambda: f"step {i}: {type(v).__name__} setter", op=k)
        return False
    if bad:
        ctx.violate("bad-update-accepted", f"step {i}: {type(v).__name__} setter", how="setter", op=k)
        return False
    tol = 1e-12 if x.dtype == torch.float64 else 2e-5
    got = npy(v.tensor)
    ctx.check(got.shape == exp.shape and np.abs(got - exp).max() < tol and v.dtype == x.dtype, "setter-value-differs", lambda: f"step {i}: {type(v).__name__}", op=k)
    return True


def quat(q):
    w, x, y, z = q.T
    return np.stack([np.stack([1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], 1),
                     np.stack([2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], 1),
                     np.stack([2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)], 1)], 1)


def shrink(case):
    for s in wd.shrink_spec(case["spec"]):
        c = dict(case, spec=s)
        keep = {v["n"] for v in s["vars"]}
        c["ops"] = [dict(o, names=[n for n in o["names"] if n in keep]) for o in case["ops"]]
        yield c
