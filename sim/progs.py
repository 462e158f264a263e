"""Programs for simulated threads. A program is a JSON value; running it yields a list of observations that must not depend on
what other threads do."""
import hashlib
import os
import warnings

import torch
import theseus as th
import torchlie as lie

from . import hist, layers as ly, modes, robots, world as wd
from .core import SIM_FAULTS, _norm
from .faults import EXC, HOOK, PLAN

KINDS = ["layer", "layer", "obj", "modes", "geo", "tl", "robot", "names"]


def gen(rng, kinds=None, small=True):
    k = rng.choice(kinds or KINDS)
    p = dict(k=k, s=rng.seed_int())
    if k == "layer":
        p["spec"] = wd.gen_spec(rng, nv=(1, 3), nextra=(0, 3), maxc=5)
        p["cfg"] = ly.gen_cfg(rng, max_it=rng.choice([1, 2, 3]))
        p["calls"] = []
        for _ in range(rng.choice([1, 1, 2])):
            c = ly.gen_call(rng, p["spec"], p["cfg"], modes=["unroll", "implicit", "truncated", "dlm"])
            c["fail"] = rng.choice([None, None, None, "user", "interrupt", "solver"])
            c["at"] = rng.randint(1, 6)
            p["calls"].append(c)
    elif k == "obj":
        p["spec"] = wd.gen_spec(rng, nv=(1, 3), nextra=(1, 4), maxc=6)
        p["vec"] = rng.p(0.6)
        p["ops"] = [dict(o=rng.choice(["update", "error", "lin", "grad", "copy", "bad", "retract", "tmp"]), s=rng.seed_int(), at=rng.randint(1, 5),
                         fail=rng.choice([None, None, None, "user", "value"])) for _ in range(rng.randint(2, 6))]
    elif k == "modes":
        p["tree"] = modes.gen_tree(rng, depth=rng.choice([2, 3]), width=2, lib=0.15)
    elif k == "geo":
        p["ops"] = [dict(o=rng.choice(["rand", "randn", "exp", "compose", "jac", "opt", "bad"]), g=rng.choice(["SO2", "SE2", "SO3", "SE3"]),
                         n=rng.choice([1, 2, 5]), s=rng.seed_int(), dt=rng.choice(["float32", "float64"])) for _ in range(rng.randint(3, 8))]
    elif k == "tl":
        p["ops"] = [dict(o=rng.choice(["rand", "sgd", "adam", "eucl", "chk", "ops", "fail"]), g=rng.choice(["SO3", "SE3"]), n=rng.choice([1, 3]),
                         s=rng.seed_int()) for _ in range(rng.randint(3, 8))]
    elif k == "robot":
        p["robot"] = robots.gen(rng, 7)
        p["dt"] = rng.choice(["float32", "float64"])
        p["ops"] = [dict(o=rng.choice(["fk", "jb", "js", "grad", "bad", "model"]), b=rng.choice([1, 2, 3]), s=rng.seed_int(),
                         links=[i for i in range(len(p["robot"]["links"])) if rng.p(0.5)] or [len(p["robot"]["links"]) - 1])
                    for _ in range(rng.randint(2, 5))]
    elif k == "names":
        p["n"] = rng.randint(5, 40)
    return p


class Rec:
    def __init__(self):
        self.items = []
        self.names = []
        self.model_viol = []

    def __call__(self, label, *vals):
        h = hashlib.sha256(_norm(_clean(vals))).hexdigest()[:16]
        self.items.append((label, h, repr(_clean(vals))[:160]))

    def exc(self, label, e):
        self(label, type(e).__name__, "" if isinstance(e, (RuntimeError, AssertionError)) else str(e)[:80])


def _clean(v):
    if isinstance(v, torch.Tensor):
        return v.detach()
    if isinstance(v, (list, tuple)):
        return [_clean(x) for x in v]
    if isinstance(v, dict):
        return {k: _clean(x) for k, x in v.items()}
    return v


def run(p, rec, scratch=None):
    HOOK.reset()
    PLAN.reset()
    globals()["run_" + p["k"]](p, rec, scratch)
    HOOK.reset()
    PLAN.reset()


CAUGHT = SIM_FAULTS + (ValueError, RuntimeError, NotImplementedError, TypeError, AssertionError)


def run_layer(p, rec, scratch):
    W = ly.build(p["spec"], p["cfg"], faulty=True)
    for i, c in enumerate(p["calls"]):
        HOOK.reset()
        PLAN.reset()
        if c["fail"] == "solver":
            PLAN.fail_at = {c["at"]}
        elif c["fail"]:
            HOOK.arm(c["at"], EXC[c["fail"]])
        try:
            inp, vals, info = ly.run(W, c, grad=True)
            rec("vals", {n: vals[n] for n in sorted(vals)})
            rec("info", ly.flat_info(info))
            g = ly.grads_of(inp, vals, c["s"] % 1000)
            rec("grads", {n: g[n] for n in sorted(g)})
        except CAUGHT as e:
            rec.exc("layer", e)
        rec("vars", wd.snapshot(W))


def run_obj(p, rec, scratch):
    W = wd.build(p["spec"], vectorize=p["vec"])
    W.obj.update()
    for op in p["ops"]:
        HOOK.reset()
        if op["fail"]:
            HOOK.arm(op["at"], EXC[op["fail"]])
        try:
            o = op["o"]
            if o == "update":
                W.obj.update(wd.rand_inputs(p["spec"], op["s"], names=list(W.vars)))
            elif o == "error":
                rec("error", W.obj.error())
            elif o == "lin":
                rec("lin", *hist.linearize(W.obj))
            elif o == "grad":
                for v in W.vars.values():
                    v.update(v.tensor.detach().clone().requires_grad_(True))
                W.obj.update()
                e = W.obj.error()
                g = torch.autograd.grad((e * e).sum(), [W.vars[n].tensor for n in W.optim], allow_unused=True)
                rec("grad", [x for x in g if x is not None])
            elif o == "copy":
                c = W.obj.copy()
                c.update()
                rec("copy", c.error())
            elif o == "bad":
                n = W.optim[0]
                W.obj.update({n: torch.zeros(3, 17)})
            elif o == "retract":
                d = wd.tensor("Var", None, W.obj.batch_size, op["s"], p["spec"]["dtype"], 0.1, [sum(W.vars[n].dof() for n in W.obj.optim_vars)])
                W.obj.retract_vars_sequence(d, [W.vars[n] for n in W.obj.optim_vars])
                W.obj.update()
            elif o == "tmp":
                rec("tmp", W.obj.error(wd.rand_inputs(p["spec"], op["s"], names=list(W.vars)), also_update=False))
        except CAUGHT as e:
            rec.exc(op["o"], e)
        rec("vars", wd.snapshot(W))


def run_modes(p, rec, scratch):
    R = modes.Runner(lambda kind, msg: rec.model_viol.append((kind, msg)), lambda *a: rec("mode", *a))
    R.run(p["tree"])
    rec("counts", sorted(R.counts.items()))


def run_geo(p, rec, scratch):
    for op in p["ops"]:
        C = getattr(th, op["g"])
        dt = wd.DT[op["dt"]]
        g = torch.Generator().manual_seed(op["s"])
        try:
            o = op["o"]
            if o in ("rand", "randn"):
                rec(o, getattr(C, o)(op["n"], generator=g, dtype=dt).tensor)
                continue
            x = C.rand(op["n"], generator=g, dtype=dt)
            y = C.rand(op["n"], generator=g, dtype=dt)
            d = torch.randn(op["n"], x.dof(), generator=g, dtype=dt)
            if o == "exp":
                J = []
                e = C.exp_map(d, jacobians=J)
                rec("exp", e.tensor, J, e.log_map())
            elif o == "compose":
                J = []
                rec("compose", x.compose(y, jacobians=J).tensor, J, x.between(y).tensor, x.local(y), x.inverse().tensor)
            elif o == "jac":
                J = []
                rec("log", x.log_map(jacobians=J), J, x.adjoint())
            elif o == "opt":
                with th.enable_lie_tangent():
                    t = th.geometry.utils.LieGroupTensor(x)
                    t.requires_grad_(True)
                    s = torch.optim.SGD([t], lr=0.1)
                    for _ in range(2):
                        s.zero_grad()
                        ((C(tensor=t).tensor - y.tensor) ** 2).sum().backward()
                        s.step()
                rec("opt", t.data.as_subclass(torch.Tensor))
            elif o == "bad":
                b = modes.bad_tensor(op["g"], op["s"]).to(dt)
                with th.no_lie_group_check(silent=True):
                    rec("unchecked", C(tensor=b).tensor)
                rec("checked", C(tensor=b).tensor)
                C(tensor=b, strict_checks=True)
        except CAUGHT as e:
            rec.exc(op["o"], e)


def run_tl(p, rec, scratch):
    for op in p["ops"]:
        L = getattr(lie, op["g"])
        F = L._fn_lib
        g = torch.Generator().manual_seed(op["s"])
        try:
            o = op["o"]
            x = L.rand(op["n"], generator=g, dtype=torch.float64)
            y = L.rand(op["n"], generator=g, dtype=torch.float64)
            if o == "rand":
                rec("rand", x._t, L.randn(op["n"], generator=g)._t)
            elif o in ("sgd", "adam"):
                x = L.rand(op["n"], generator=g, dtype=torch.float64, requires_grad=True)
                s = torch.optim.SGD([x], lr=0.1) if o == "sgd" else torch.optim.Adagrad([x], lr=0.1)
                for _ in range(3):
                    s.zero_grad()
                    x.local(y).pow(2).sum().backward()
                    s.step()
                rec(o, x._t)
            elif o == "eucl":
                with lie.as_euclidean():
                    rec("eucl", (x + y) * 2.0)
                try:
                    x + y
                    rec("eucl-out", "allowed")
                except NotImplementedError:
                    rec("eucl-out", "refused")
            elif o == "chk":
                b = modes.bad_tensor(op["g"], op["s"])
                rec("lax", L(b)._t)
                with lie.functional.enable_checks():
                    L(b)
            elif o == "ops":
                J, z = x.jcompose(y)
                J2, l = x.jlog()
                rec("ops", J, z._t, J2, l, x.adj(), x.inv()._t)
            elif o == "fail":
                F.exp(torch.zeros(2, 11))
        except CAUGHT as e:
            rec.exc(op["o"], e)


def run_robot(p, rec, scratch):
    import torchkin

    r = p["robot"]
    path = os.path.join(scratch, f"r{p['s']}.urdf")
    if not os.path.exists(path):
        with open(path, "w") as f:
            f.write(robots.urdf(r))
    dt = wd.DT[p["dt"]]
    R = torchkin.Robot.from_urdf_file(path, dtype=dt)
    rec("robot", R.dof, [x.name for x in R.links], [j.name for j in R.joints])
    for op in p["ops"]:
        try:
            names = [r["links"][i] for i in op["links"]]
            fk, jb, js = torchkin.get_forward_kinematics_fns(R, names)
            q = wd.tensor("Var", None, op["b"], op["s"], dt, 1.0, [R.dof]) if R.dof else torch.zeros(op["b"], 0, dtype=dt)
            if op["o"] == "fk":
                rec("fk", fk(q))
            elif op["o"] == "jb":
                rec("jb", *jb(q))
            elif op["o"] == "js":
                rec("js", *js(q))
            elif op["o"] == "grad":
                q.requires_grad_(True)
                rec("grad", torch.autograd.grad(sum((x * x[:, :1]).sum() for x in fk(q)), q, allow_unused=True))
            elif op["o"] == "bad":
                fk(torch.zeros(2, R.dof + 3, dtype=dt))
            elif op["o"] == "model":
                M = th.eb.UrdfRobotModel(path, dtype=dt, link_names=names)
                J = {}
                rec("model", [M.forward_kinematics(th.Vector(tensor=q), jacobians=J)[n].tensor for n in names], [J[n] for n in names])
        except CAUGHT as e:
            rec.exc(op["o"], e)


def run_names(p, rec, scratch):
    w = th.ScaleCostWeight(1.0)
    for i in range(p["n"]):
        v = th.Vector(2)
        rec.names.append(v.name)
        u = th.Variable(torch.zeros(1, 1))
        rec.names.append(u.name)
        c = th.Difference(v, th.Vector(2), w)
        rec.names.append(c.name)
        rec.names.append(c.target.name)
        if i % 3 == 0:
            rec.names.append(v.copy().name)
    rec("names", len(rec.names))


def shrink(p):
    import json

    for key in ("ops", "calls", "tree"):
        if key in p and len(p[key]) > 1:
            for i in range(len(p[key])):
                q = json.loads(json.dumps(p))
                del q[key][i]
                yield q
    if p.get("n", 0) > 2:
        yield dict(p, n=p["n"] // 2)
    if "tree" in p:
        for i, n in enumerate(p["tree"]):
            if n.get("body"):
                q = json.loads(json.dumps(p))
                q["tree"] = n["body"]
                yield q
