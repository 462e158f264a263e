"""C24 - Gaussians on manifolds change as a whole or not at all, and copies are isolated."""
import copy

import torch
import theseus as th

from .. import world as wd
from . import c13

RUNS = {"quick": 900, "thorough": 60000}
RULE = ("a run is a history of 4-14 calls over a family of 1-4 Gaussians (1-3 means of any group): updates, refused updates (wrong number, batch, shape or dtype of any "
        "mean or of the precision, asymmetric precision), updates cut short between source lines, conversions, copies, in-place edits, projections to and from tangent spaces; after every "
        "call all members of the family are compared with a shadow record; non-trivial if an update was refused or cut short, or a copy taken")
REAL = ["ManifoldGaussian, local_gaussian, retract_gaussian", "Variable.update, groups"]
STUB = ["interruptions (raised between source lines of the library)"]
ASSUMPTIONS = ["a Gaussian holds the variables and the precision tensor it is given (no copy)"]

TYPES = ["Vector", "Point2", "Point3", "SO2", "SE2", "SO3", "SE3"]


def gen(rng, tier, i):
    means = [rng.choice(TYPES) for _ in range(rng.choice([1, 1, 2, 3]))]
    ops = []
    for _ in range(rng.randint(4, 14)):
        k = rng.wchoice([("update", 3), ("refused", 3), ("cut", 2), ("to", 1), ("copy", 1.5), ("edit", 1), ("project", 1.5), ("set", 1)])
        o = dict(k=k, q=rng.randrange(4), s=rng.seed_int(), b=rng.choice([1, 2, 3]), j=rng.randrange(len(means)), at=rng.randint(1, 60), deep=rng.p(0.4))
        if k == "to":
            o["dt"] = rng.choice(["float32", "float64"])
        if k == "refused":
            o["how"] = rng.choice(["number", "pshape", "pbatch", "pdtype", "asym", "mshape", "mdtype"])
        ops.append(o)
    return dict(means=means, b=rng.choice([1, 2, 3]), s=rng.seed_int(), dt=rng.choice(["float64", "float64", "float32"]), given=rng.p(0.7), ops=ops)


def dims(t):
    return 3 if t == "Vector" else wd.DOF[t]


def mk(t, b, seed, dt, name=None):
    return wd.mk_manifold(t, dims(t), wd.tensor(t, dims(t), b, seed, dt), name)


def prec(n, b, seed, dt):
    return wd.tensor("Spd", None, b, seed, dt, shape=[n, n])


def values(g):
    return [v.tensor.detach().clone() for v in g.mean] + [g.precision.detach().clone()]


def run(case, ctx):
    with th.no_lie_group_check(silent=True):
        return run_(case, ctx)


def run_(case, ctx):
    types = case["means"]
    n = sum(dims(t) for t in types)
    g = th.ManifoldGaussian([mk(t, case["b"], case["s"] + 7 * i, case["dt"]) for i, t in enumerate(types)],
                            precision=prec(n, case["b"], case["s"] + 99, case["dt"]) if case["given"] else None, name="g")
    if not case["given"]:
        I = torch.eye(n, dtype=wd.DT[case["dt"]]).repeat(case["b"], 1, 1)
        ctx.check(wd.same_bits(g.precision, I), "default-precision", lambda: wd.diff(g.precision, I))
    fam = [g]
    shadow = [values(g)]
    dts = [case["dt"]]
    for j, op in enumerate(case["ops"]):
        ctx.step()
        q = op["q"] % len(fam)
        g, dt, k = fam[q], dts[q], op["k"]
        ctx.state(k, op.get("how"), len(fam), dt)

        def fresh(b=op["b"], dt=dt):
            return [mk(t, b, op["s"] + 7 * i, dt) for i, t in enumerate(types)], prec(n, b, op["s"] + 99, dt)

        if k == "update":
            m, p = fresh()
            want = [v.tensor.clone() for v in m] + [p.clone()]
            g.update(m, p)
            shadow[q] = want
        elif k == "refused":
            m, p = fresh()
            how, i = op["how"], op["j"]
            other = "float32" if dt == "float64" else "float64"
            if how == "number":
                m = m[:-1] if op["s"] % 2 else m + m[:1]
                if not m:
                    m = fresh()[0] * 2
            elif how == "pshape":
                p = prec(n + 1, op["b"], op["s"], dt)
            elif how == "pbatch":
                p = prec(n, op["b"] + 1, op["s"], dt)
            elif how == "pdtype":
                p = p.to(wd.DT[other])
            elif how == "asym":
                p = p.clone()
                if n == 1:
                    continue
                p[-1, 0, n - 1] += 1.0
            elif how == "mshape":
                m[i] = th.Vector(tensor=torch.zeros(op["b"], 9, dtype=wd.DT[dt]))
            else:
                m[i] = mk(types[i], op["b"], op["s"], other)
            try:
                g.update(m, p)
                ctx.violate("acceptance", f"call {j}: update accepted ({how})", how=how)
                return
            except (ValueError, RuntimeError):
                ctx.fault("refused_update")
                ctx.nontriv = True
        elif k == "cut":
            m, p = fresh()
            want = [v.tensor.clone() for v in m] + [p.clone()]
            lf = c13.LineFault(op["at"])
            try:
                with lf:
                    g.update(m, p)
            except RuntimeError:
                pass
            if lf.fired:
                ctx.fault("interrupted_update")
                ctx.nontriv = True
                got = values(g)
                if same(got, want):
                    shadow[q] = want
            else:
                shadow[q] = want
        elif k == "to":
            g.to(dtype=wd.DT[op["dt"]])
            dts[q] = op["dt"]
            shadow[q] = [x.to(wd.DT[op["dt"]]) for x in shadow[q]]
            ctx.check(g.dtype == wd.DT[op["dt"]], "dtype", f"{g.dtype}")
        elif k == "copy" and len(fam) < 4:
            c = copy.deepcopy(g) if op["deep"] else g.copy(new_name="c" if op["s"] % 2 else None)
            fam.append(c)
            shadow.append([x.clone() for x in shadow[q]])
            dts.append(dt)
            ctx.nontriv = True
        elif k == "edit":  # in place, through this member only
            with torch.no_grad():
                if op["s"] % 3 == 0:
                    g.precision.mul_(2.0)
                    shadow[q][-1] = shadow[q][-1] * 2.0
                else:
                    i = op["j"]
                    g.mean[i].tensor.add_(0)  # same value, same storage
                    g.mean[i][0] = g.mean[i][-1].clone()
                    shadow[q][i] = shadow[q][i].clone()
                    shadow[q][i][0] = shadow[q][i][-1]
        elif k == "set":
            i = op["j"]
            v = mk(types[i], shadow[q][i].shape[0], op["s"], dt)
            shadow[q][i] = v.tensor.clone()
            g.mean[i].update(v)
        elif k == "project" and len(types) == 1 and types[0] not in ("Vector", "Point2", "Point3") and dt == "float64":
            b = shadow[q][0].shape[0]
            base = mk(types[0], b, op["s"], dt)
            keep = base.tensor.clone()
            if bool((shadow[q][0].reshape(b, -1).abs().max(1)[0] < 1e-12).any()):
                continue
            mu, lam = th.local_gaussian(base, g, return_mean=True)
            eta, lam2 = th.local_gaussian(base, g, return_mean=False)
            k1 = torch.einsum("bij,bj->bi", lam, mu)
            ctx.check(wd.close(eta, k1, k=100) and wd.same_bits(lam, lam2), "information-form", lambda: wd.diff(eta, k1))
            if float(mu.norm(dim=1).max()) < 2.5:
                back = th.retract_gaussian(base, mu, lam)
                ctx.probe("projection_round_trip")
                ctx.check(wd.close(back.mean[0].tensor, shadow[q][0], k=1e4), "round-trip-mean", lambda: wd.diff(back.mean[0].tensor, shadow[q][0]))
                ctx.check(wd.close(back.precision, shadow[q][-1], k=1e5), "round-trip-precision", lambda: wd.diff(back.precision, shadow[q][-1]))
            ctx.check(wd.same_bits(base.tensor, keep), "argument-changed", "the base point moved")
        if ctx.viol:
            return
        ctx.ev(j, k, [values(x) for x in fam])
        for i, (x, s) in enumerate(zip(fam, shadow)):
            got = values(x)
            if not ctx.check(same(got, s), "half-updated" if i == q else "not-isolated",
                             lambda: f"call {j} {k} {op.get('how', '')} on member {q}: member {i} has {[wd.diff(a, b) for a, b in zip(got, s)]}", op=k):
                return
            ctx.check(x.dof == n and x.dtype == got[0].dtype, "properties", f"dof {x.dof} dtype {x.dtype}")


def same(a, b):
    return len(a) == len(b) and all(wd.same_bits(x, y) for x, y in zip(a, b))


def shrink(case):
    for i in range(len(case["ops"]) - 1, -1, -1):
        if len(case["ops"]) > 1:
            yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
