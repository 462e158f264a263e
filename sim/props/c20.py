"""C20 - robot kinematics functions are pure and reentrant."""
import json
import os

import numpy as np
import torch

from .. import sched
from ..core import SIM_FAULTS, Rng

sched.patch_locks()

import theseus as th  # noqa
import torchkin  # noqa
from .. import robots, world as wd  # noqa
from ..faults import OpFault  # noqa
from .c13 import LineFault, Lines  # noqa

RUNS = {"quick": 400, "thorough": 30000}
RULE = ("a run is 1-3 random robots and a history over several kinematics functions of each (any link subset and order): poses, both "
        "jacobians, first and second derivatives, delayed and repeated backward passes, refused and interrupted calls, interrupted robot "
        "loading, results overwritten by the caller; or the same functions called from simulated threads. Every result is compared with an "
        "independent kinematics model and, bit for bit, with a function of a newly loaded robot; non-trivial if the function compared had "
        "been called before, another call lay in between, or threads were interleaved")
REAL = ["torchkin (robot loading, forward kinematics, jacobians, autograd function)", "theseus UrdfRobotModel", "torchlie functional SE3",
        "real threads (one running at a time)"]
STUB = ["tensor allocator (dispatch seam)", "thread scheduling", "interrupts (before any source line of the library)"]
ASSUMPTIONS = ["joint values up to about +-3", "supported joint types only (fixed, revolute, continuous, prismatic)"]

OPS = [("fk", 4), ("jb", 2), ("js", 2), ("grad", 2), ("hold", 1.5), ("release", 1.5), ("hess", 0.8), ("bad", 1), ("opfault", 2), ("linefault", 1),
       ("scribble", 1), ("model", 1.2), ("load", 0.7), ("loadfail", 0.7), ("newfns", 1), ("nograd-grad", 0.5), ("cross", 1.5)]


def prepare():
    sched.import_all()


def gen_links(rng, r):
    n = len(r["links"])
    x = rng.random()
    if x < 0.15:
        return None
    k = rng.randint(1, n)
    L = rng.sample(range(n), k)
    if rng.p(0.15):
        L.append(rng.choice(L))  # the same link twice
    if rng.p(0.3):
        L.sort()
    return L


def gen_q(rng):
    return dict(b=rng.choice([1, 1, 2, 3, 5]), s=rng.seed_int(), sc=rng.choice([1.0, 1.0, 0.0, 2.5, 1e-4]), lay=rng.choice(["plain", "plain", "strided", "expanded"]))


def gen(rng, tier, i):
    nr = rng.choice([1, 2, 3])
    rs = [robots.gen(rng, 8, fixed=rng.choice([0, 0.3, 0.6])) for _ in range(nr)]
    c = dict(robots=rs, dt=rng.choice(["float64", "float64", "float32"]), samename=rng.p(0.5), vend=nr == 2,
             fns=[dict(r=k % nr, L=gen_links(rng, rs[k % nr])) for k in range(nr * rng.choice([1, 2]))])
    if rng.p(0.3):
        c["k"] = "threads"
        ths = []
        for _ in range(rng.choice([2, 3])):
            ths.append([dict(o=rng.choice(["fk", "fk", "jb", "js", "grad", "bad", "load", "hess"]), f=rng.randrange(len(c["fns"])), q=gen_q(rng), s=rng.seed_int())
                        for _ in range(rng.randint(1, 4))])
        c.update(threads=ths, sseed=rng.seed_int(), q=rng.choice([1, 3, 10, 50]), hot=rng.choice([0, 0.05, 0.3]))
        return c
    c["k"] = "hist"
    c["ev"] = [dict(o=rng.wchoice(OPS), f=rng.randrange(len(c["fns"])), q=gen_q(rng), s=rng.seed_int(), at=round(rng.random(), 4),
                    of=rng.choice(["fk", "jb", "js", "grad", "model"]), L=None) for _ in range(rng.randint(4, 12))]
    for e in c["ev"]:
        if e["o"] in ("newfns", "model"):
            e["L"] = gen_links(rng, rs[c["fns"][e["f"]]["r"]])
    return c


# ------------------------------------------------------------------ helpers
class Fns:
    def __init__(self, R, r, L):
        self.R, self.r, self.L = R, r, L
        self.names = None if L is None else [r["links"][i] for i in L]
        arg = None if self.names is None else list(self.names)
        self.fk, self.jb, self.js = torchkin.get_forward_kinematics_fns(R, arg)
        if arg is not None:
            arg.reverse()  # the caller's list is the caller's
        self.order = self.names if self.names is not None else [x.name for x in R.links]
        self.calls = 0


def write(case, d):
    ps = []
    for i, r in enumerate(case["robots"]):
        p = os.path.join(d, f"r{i}.urdf")
        with open(p, "w") as f:
            f.write(robots.urdf(r, "robot" if case["samename"] else f"robot{i}"))
        ps.append(p)
    return ps


def joints(case, R, q, dt):
    b, n = q["b"], R.dof
    g = torch.Generator().manual_seed(q["s"])
    x = (torch.rand(b, n, generator=g, dtype=torch.float64) * 2 - 1).mul(q["sc"]).to(dt)
    if q["lay"] == "strided":
        y = torch.zeros(b, 2 * n + 1, dtype=dt)
        y[:, 1::2] = x
        x = y[:, 1::2]
    elif q["lay"] == "expanded":
        x = x[:1].expand(b, n)
    return x


def snap(R):
    o = [R.name, R.dof, R.num_links, R.num_joints, str(R.dtype)]
    for j in R.joints:
        o.append((j.name, j.id, j.dof, j.parent_link.name, j.child_link.name, j.origin.tolist(), j.axis.tolist()))
    for x in R.links:
        o.append((x.name, x.id, [a.id for a in x.ancestor_links], list(x.ancestor_non_fixed_joint_ids), x.parent_joint.name if x.parent_joint else None))
    o.append((sorted(R.link_map), sorted(R.joint_map)))
    return o


def expect(r, R, q, names):
    """poses (B,3,4) of the named links from the independent model"""
    jm = robots.jmap(R)
    out = [[] for _ in names]
    for row in q.detach().double().tolist():
        T = robots.fk(r, dict(zip(jm, row)))
        for k, n in enumerate(names):
            out[k].append(T[n][:3])
    return [torch.tensor(np.array(x)) if x else torch.zeros(0, 3, 4).double() for x in out]


def num_jac(r, R, q, names, body):
    """spatial/body jacobians by central differences of the independent model"""
    h = 1e-6
    P = expect(r, R, q, names)
    J = [torch.zeros(q.shape[0], 6, R.dof, dtype=torch.float64) for _ in names]
    for c in range(R.dof):
        qp, qm = q.detach().double().clone(), q.detach().double().clone()
        qp[:, c] += h
        qm[:, c] -= h
        Pp, Pm = expect(r, R, qp, names), expect(r, R, qm, names)
        for k in range(len(names)):
            Rm, t = P[k][:, :, :3], P[k][:, :, 3]
            dR = (Pp[k][:, :, :3] - Pm[k][:, :, :3]) / (2 * h)
            dt = (Pp[k][:, :, 3] - Pm[k][:, :, 3]) / (2 * h)
            if body:
                W, v = Rm.transpose(1, 2) @ dR, (Rm.transpose(1, 2) @ dt.unsqueeze(2)).squeeze(2)
            else:
                W = dR @ Rm.transpose(1, 2)
                v = dt - (W @ t.unsqueeze(2)).squeeze(2)
            J[k][:, :3, c] = v
            J[k][:, 3, c] = W[:, 2, 1]
            J[k][:, 4, c] = W[:, 0, 2]
            J[k][:, 5, c] = W[:, 1, 0]
    return J


def near(a, b, tol):
    return a.shape == b.shape and torch.allclose(a.detach().double(), b.detach().double(), rtol=tol, atol=tol)


def weights(shape, s, dt):
    return torch.randn(shape, generator=torch.Generator().manual_seed(s), dtype=torch.float64).to(dt)


def loss(ps, s):
    return sum((p * p * weights(p.shape, s + i, p.dtype) + p * weights(p.shape, s - i, p.dtype)).sum() for i, p in enumerate(ps))


def plain_fk(r, jm, names, q):
    """the poses written with elementary differentiable operations only"""
    B = q.shape[0]
    col = {n: k for k, n in enumerate(jm)}
    T = {r["links"][0]: torch.eye(4, dtype=q.dtype).expand(B, 4, 4)}
    for j in r["joints"]:
        O = np.eye(4)
        if "xyz" in j:
            O[:3, :3] = robots._rpy(j["rpy"])
            O[:3, 3] = j["xyz"]
        P = T[j["p"]] @ torch.tensor(O)
        if j["t"] != "fixed":
            x = q[:, col[j["n"]]].view(B, 1, 1)
            a = np.array(j["axis"])
            G = np.zeros((4, 4))
            if j["t"] == "prismatic":
                G[:3, 3] = a
                M = torch.eye(4, dtype=q.dtype) + x * torch.tensor(G)
            else:
                n = float(np.linalg.norm(a))
                G[:3, :3] = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]]) / n
                K = torch.tensor(G)
                M = torch.eye(4, dtype=q.dtype) + (n * x).sin() * K + (1 - (n * x).cos()) * (K @ K)
            P = P @ M
        T[j["c"]] = P
    return [T[n][:, :3] for n in names]


def call(F, o, q, s):
    F.calls += 1
    if o == "fk":
        return list(F.fk(q))
    if o in ("jb", "js"):
        J, P = (F.jb if o == "jb" else F.js)(q)
        return list(J) + list(P)
    if o == "grad":
        x = q.detach().clone().requires_grad_(True)
        return list(torch.autograd.grad(loss(F.fk(x), s), x))
    if o == "hess":
        x = q.detach().clone().requires_grad_(True)
        g, = torch.autograd.grad(loss(F.fk(x), s), x, create_graph=True)
        return list(torch.autograd.grad((g * weights(g.shape, s + 99, g.dtype)).sum(), x))
    raise AssertionError(o)


class Sim:
    def __init__(self, case, ctx, d):
        self.case, self.ctx = case, ctx
        self.dt = wd.DT[case["dt"]]
        self.f64 = case["dt"] == "float64"
        self.paths = write(case, d)
        self.R = [self.load(i) for i in range(len(self.paths))]
        self.snap = [snap(R) for R in self.R]
        self.fns = [Fns(self.R[f["r"]], case["robots"][f["r"]], f["L"]) for f in case["fns"]]
        self.held = []

    def load(self, i):
        return torchkin.Robot.from_urdf_file(self.paths[i], dtype=self.dt)

    def ri(self, e):
        return self.case["fns"][e["f"]]["r"]

    def fresh(self, F, e):
        return Fns(self.load(self.ri(e)), F.r, F.L)

    def judge(self, F, o, q, s, got, what):
        ctx = self.ctx
        names = F.order
        n = len(names)
        if o in ("fk", "jb", "js"):
            P = got[-n:]
            exp = expect(F.r, F.R, q, names)
            for nm, a, b in zip(names, P, exp):
                if a.dtype != self.dt or not near(a, b, 1e-7 if self.f64 else 2e-4):
                    ctx.violate("pose-differs", f"{what}: pose of {nm} (of {names}) is not that of the robot: {float((a.double() - b).abs().max()) if a.shape == b.shape else a.shape}")
                    return
        if o in ("jb", "js"):
            exp = num_jac(F.r, F.R, q, names, o == "jb")
            for nm, a, b in zip(names, got[:n], exp):
                if not near(a, b, 2e-6 if self.f64 else 2e-3):
                    ctx.violate("jacobian-differs", f"{what}: {'body' if o == 'jb' else 'spatial'} jacobian of {nm} (of {names}) is off by {float((a.double() - b).abs().max()) if a.shape == b.shape else a.shape}")
                    return
        if o in ("grad", "hess"):
            x = q.detach().clone().double().requires_grad_(True)
            ls = sum((p * p * weights(p.shape, s + i, self.dt).double() + p * weights(p.shape, s - i, self.dt).double()).sum()
                     for i, p in enumerate(plain_fk(F.r, robots.jmap(F.R), names, x)))
            g = torch.autograd.grad(ls, x, create_graph=True)[0] if ls.requires_grad else torch.zeros_like(x)
            if o == "hess":
                w = weights(g.shape, s + 99, self.dt).double()
                g = torch.autograd.grad((g * w).sum(), x)[0] if g.requires_grad else torch.zeros_like(x)
            sc = 1 + float(g.abs().max()) if g.numel() else 1
            small = o == "hess" and bool((x.abs() < 0.02).any())  # the exponential map is a truncated series near zero
            if not near(got[0] / sc, g / sc, 2e-2 if small else 1e-6 if self.f64 else 1e-3):
                ctx.violate("gradient-differs", f"{what}: {'second' if o == 'hess' else 'first'} derivative off by {float((got[0].double() - g).abs().max())}")
                return
        ref = call(self.fresh(F, self.e), o, q, s)
        for k, (a, b) in enumerate(zip(got, ref)):
            if not wd.same_bits(a.detach(), b.detach()):
                ctx.violate("history-dependent", f"{what}: output {k} differs from that of a newly loaded robot by {float((a - b).abs().max()) if a.shape == b.shape else (a.shape, b.shape)}")
                return
        ctx.ev(o, [a.detach() for a in got])

    def unchanged(self, what):
        for i, R in enumerate(self.R):
            now = snap(R)
            if now != self.snap[i]:
                d = [(a, b) for a, b in zip(self.snap[i], now) if a != b][:1]
                self.ctx.violate("robot-modified", f"{what} changed robot {i}: {str(d)[:300]}")
                self.snap[i] = now

    def pure(self, q, before, what):
        if not wd.same_bits(q.detach(), before) or q.grad is not None:
            self.ctx.violate("input-modified", f"{what} modified the joint values it was given")

    def step(self, e):
        ctx, o = self.ctx, e["o"]
        self.e = e
        F = self.fns[e["f"]]
        q = joints(self.case, F.R, e["q"], self.dt)
        before = q.clone()
        what = f"{o} of {F.names} batch {q.shape[0]} after {F.calls} calls"
        ctx.step()
        ctx.state(o, e["f"], q.shape[0])
        if F.calls:
            ctx.nontriv = True
        if o in ("fk", "jb", "js", "grad", "hess"):
            if o in ("grad", "hess") and not F.R.dof:
                return
            if o == "hess" and not any(F.R.link_map[n].ancestor_non_fixed_joint_ids for n in F.order):
                return
            self.judge(F, o, q, e["s"], call(F, o, q, e["s"]), what)
            self.pure(q, before, what)
        elif o == "nograd-grad":
            x = q.detach().clone().requires_grad_(True)
            with torch.no_grad():
                got = list(F.fk(x))
            F.calls += 1
            if any(t.requires_grad for t in got):
                ctx.violate("history-dependent", f"{what}: poses computed under no_grad require grad")
            self.judge(F, "fk", x, e["s"], got, what)
        elif o == "hold":
            if not F.R.dof:
                return
            x = q.detach().clone().requires_grad_(True)
            F.calls += 1
            self.held.append([F, x, F.fk(x), e])
        elif o == "release":
            if not self.held:
                return
            k = e["s"] % len(self.held)
            F, x, ps, e0 = self.held[k]
            g = torch.autograd.grad(loss(ps, e["s"]), x, retain_graph=True)
            g2 = torch.autograd.grad(loss(ps, e["s"]), x, retain_graph=bool(e["s"] & 1))
            if not (e["s"] & 1):
                del self.held[k]
            if not wd.same_bits(g[0], g2[0]):
                ctx.violate("history-dependent", f"delayed backward of fk {F.names}: repeating it gives another gradient")
            self.e = e0
            self.judge(F, "grad", x, e["s"], list(g2), "delayed backward of " + what)
            ctx.nontriv = True
        elif o == "cross":
            # several calls of one batch size going backward in any order, some of them again
            if not F.R.dof:
                return
            r = Rng(e["s"])
            xs = [q.detach().clone().requires_grad_(True)]
            for k in range(r.choice([1, 1, 2])):
                xs.append(joints(self.case, F.R, dict(e["q"], s=e["s"] + k, lay="plain"), self.dt).clone().requires_grad_(True))
            ys = [F.fk(x) for x in xs]
            F.calls += len(xs)
            seen = {}
            for t in range(r.randint(2, 5)):
                k = r.randrange(len(xs))
                if r.p(0.3):
                    with torch.no_grad():
                        (F.jb if r.p(0.5) else F.js)(q.detach())
                g = torch.autograd.grad(loss(ys[k], e["s"]), xs[k], retain_graph=True)[0]
                if k in seen and not wd.same_bits(g, seen[k]):
                    ctx.violate("history-dependent", f"{what}: repeating a backward pass after those of other calls gives another gradient")
                if k not in seen:
                    self.judge(F, "grad", xs[k], e["s"], [g], "interleaved backward of " + what)
                seen[k] = g.clone()
            ctx.nontriv = True
        elif o == "bad":
            for bad in (torch.zeros(2, F.R.dof + 1, dtype=self.dt), torch.zeros(F.R.dof, dtype=self.dt)):
                for fn in (F.fk, F.jb, F.js):
                    try:
                        fn(bad)
                        ctx.violate("accepted-invalid", f"joint values of shape {tuple(bad.shape)} accepted for a robot with {F.R.dof} joints")
                    except ValueError:
                        ctx.fault("refused_joint_values")
            try:
                torchkin.get_forward_kinematics_fns(F.R, ["no such link"])
                ctx.violate("accepted-invalid", "an unknown link was accepted")
            except KeyError:
                ctx.fault("refused_link_name")
        elif o in ("opfault", "linefault"):
            kind = e["of"] if e["of"] != "model" else "fk"
            if kind == "grad" and not F.R.dof:
                return
            T = OpFault if o == "opfault" else LineFault
            c = T(0)
            with c:
                call(self.fresh(F, e), kind, q, e["s"])
            f = T(1 + int(e["at"] * c.n))
            try:
                with f:
                    call(F, kind, q, e["s"])
            except RuntimeError:
                if not f.fired:
                    raise
            if f.fired:
                ctx.fault("alloc_failure" if o == "opfault" else "interrupted_call")
            self.pure(q, before, f"a failed {kind}")
            self.unchanged(f"a failed {kind}")
            self.judge(F, kind, q, e["s"], call(F, kind, q, e["s"]), f"{kind} {F.names} after a failed one")
            ctx.nontriv = True
        elif o == "scribble":
            for fn in (F.fk, F.jb, F.js):
                with torch.no_grad():
                    out = fn(q.clone())
                for t in (out if fn is F.fk else list(out[0]) + list(out[1])):
                    t.fill_(float("nan"))
            F.calls += 3
            ctx.fault("result_overwritten_by_caller")
            self.unchanged("overwriting a result")
            self.judge(F, "js", q, e["s"], call(F, "js", q, e["s"]), what + ", results overwritten")
        elif o == "newfns":
            L = e["L"]
            G = Fns(F.R, F.r, L)
            self.judge_with(G, e, q, what)
            # a subset agrees with the full set
            if L is not None and F.L is not None:
                full = dict(zip([x.name for x in F.R.links], torchkin.get_forward_kinematics_fns(F.R)[0](q)))
                for n, p in zip(G.order, G.fk(q)):
                    if not near(p, full[n], 1e-12 if self.f64 else 1e-5):
                        ctx.violate("subset-differs", f"pose of {n} requested as part of {G.order} differs from the full set")
        elif o == "model":
            self.model(F, e, q, what)
        elif o == "load":
            i = self.ri(e)
            R = self.load(i)
            if snap(R) != self.snap[i]:
                ctx.violate("robot-modified", f"loading robot {i} again gives another robot")
            self.R[i], old = R, self.R[i]
            if e["s"] % 2:
                self.R[i] = old
            else:
                self.snap[i] = snap(R)
        elif o == "loadfail":
            i = self.ri(e)
            T = OpFault if e["s"] % 2 else LineFault
            c = T(0)
            with c:
                self.load(i)
            f = T(1 + int(e["at"] * c.n))
            try:
                with f:
                    self.load(i)
            except Exception:  # the parser wraps what goes wrong inside it
                if not f.fired:
                    raise
            if f.fired:
                ctx.fault("interrupted_load")
            R = self.load(i)
            if snap(R) != self.snap[i]:
                ctx.violate("robot-modified", f"loading robot {i} after an interrupted load gives another robot")
        self.unchanged(what)

    def judge_with(self, G, e, q, what):
        L = G.L
        old = self.fresh

        def fresh(F, e):
            return Fns(self.load(self.ri(e)), F.r, L)

        self.fresh = fresh
        try:
            for o in ("fk", "js"):
                self.judge(G, o, q, e["s"], call(G, o, q, e["s"]), f"{o} of new function {G.names}")
        finally:
            self.fresh = old

    def model(self, F, e, q, what):
        ctx = self.ctx
        names = None if e["L"] is None else [F.r["links"][i] for i in e["L"]]
        M = th.eb.UrdfRobotModel(self.paths[self.ri(e)], dtype=self.dt, link_names=None if names is None else list(names))
        ref = [x.name for x in M.robot.links] if names is None else names
        exp = dict(zip(ref, expect(F.r, M.robot, q, ref)))
        for k in range(3):
            body = (e["s"] >> k) & 1 == 1
            J = {} if k else None
            qq = th.Vector(tensor=q.clone()) if k % 2 else q.clone()
            if k == 1 and e["at"] < 0.5:
                c = OpFault(1 + int(e["at"] * 60))
                try:
                    with c:
                        M.forward_kinematics(qq, jacobians={})
                except RuntimeError:
                    ctx.fault("alloc_failure")
                try:
                    M.forward_kinematics(qq, jacobians={"x": 1})
                    ctx.violate("accepted-invalid", "a non-empty jacobian dictionary was accepted")
                except ValueError:
                    pass
            P = M.forward_kinematics(qq, jacobians=J, use_body_jacobians=body)
            if list(P) != list(dict.fromkeys(ref)) or (J is not None and list(J) != list(P)):
                ctx.violate("order-differs", f"UrdfRobotModel({names}) returned links {list(P)}, jacobians {J and list(J)}")
                return
            for n in P:
                if not near(P[n].tensor, exp[n], 1e-7 if self.f64 else 2e-4):
                    ctx.violate("pose-differs", f"UrdfRobotModel({names}): pose of {n} differs")
                    return
            if J:
                for n, j in zip(ref, num_jac(F.r, M.robot, q, ref, body)):
                    if not near(J[n], j, 2e-6 if self.f64 else 2e-3):
                        ctx.violate("jacobian-differs", f"UrdfRobotModel({names}): {'body' if body else 'spatial'} jacobian of {n} differs")
                        return
        ctx.ev("model", [P[n].tensor for n in P])


def run_threads(case, ctx, d):
    S0 = Sim(case, ctx, d)

    def prog(ops, fns, out):
        def f():
            for e in ops:
                F = fns[e["f"]]
                o = e["o"]
                if o == "load":
                    i = case["fns"][e["f"]]["r"]
                    out.append([str(snap(torchkin.Robot.from_urdf_file(S0.paths[i], dtype=S0.dt)))])
                    continue
                if o == "bad":
                    try:
                        F.fk(torch.zeros(2, F.R.dof + 1, dtype=S0.dt))
                    except ValueError:
                        pass
                    continue
                if o in ("grad", "hess") and not (F.R.dof and any(F.R.link_map[n].ancestor_non_fixed_joint_ids for n in F.order)):
                    o = "fk"
                q = joints(case, F.R, e["q"], S0.dt)
                out.append([o, e, call(F, o, q, e["s"])])

        return f

    solo = []
    for ops in case["threads"]:
        out = []
        fr = [Fns(S0.load(f["r"]), case["robots"][f["r"]], f["L"]) for f in case["fns"]]
        er = sched.solo(prog(ops, fr, out))
        if er is not None:
            raise er
        solo.append(out)
    outs = [[] for _ in case["threads"]]
    S = sched.Scheduler(len(outs), case["sseed"], case["q"], case["hot"], case.get("sched"))
    errs = S.run([prog(ops, S0.fns, o) for ops, o in zip(case["threads"], outs)])
    ctx.sched = S.schedule()
    ctx.step(S.lines)
    ctx.probe("preemptions", S.switches)
    ctx.state([[e["o"] for e in t] for t in case["threads"]], S.schedule())
    if S.switches > 3:
        ctx.nontriv = True
    for i, (a, b) in enumerate(zip(outs, solo)):
        if errs[i] is not None:
            ctx.violate("thread-error", f"thread {i}: {errs[i]!r} when interleaved, nothing alone")
            continue
        for x, y in zip(a, b):
            if len(x) == 1:
                if x != y:
                    ctx.violate("thread-results", f"thread {i}: robot loaded next to other threads differs")
                continue
            for t, u in zip(x[2], y[2]):
                if not wd.same_bits(t.detach(), u.detach()):
                    ctx.violate("thread-results", f"thread {i}: {x[0]} of {S0.fns[x[1]['f']].names} differs when called next to other threads")
                    return
    S0.unchanged("calls in threads")
    ctx.ev(S.schedule())
    for a in outs:
        for x in a:
            if len(x) == 3:
                S0.e = x[1]
                F = S0.fns[x[1]["f"]]
                S0.judge(F, x[0], joints(case, F.R, x[1]["q"], S0.dt), x[1]["s"], x[2], f"{x[0]} in a thread")


def run(case, ctx):
    with robots.Scratch() as d, robots.parser(case.get("vend")):
        if case["k"] == "threads":
            if not case["threads"]:
                return
            run_threads(case, ctx, d)
        else:
            S = Sim(case, ctx, d)
            for e in case["ev"]:
                S.step(e)
                if ctx.viol:
                    return


def shrink(case):
    def cp():
        return json.loads(json.dumps(case))

    if case["k"] == "hist":
        for i in range(len(case["ev"])):
            if len(case["ev"]) > 1:
                c = cp()
                del c["ev"][i]
                yield c
    else:
        for i, t in enumerate(case["threads"]):
            if len(case["threads"]) > 1 and "sched" in case:
                c = cp()
                del c["threads"][i]
                c["sched"] = [[a - (a > i), k] for a, k in c["sched"] if a != i]
                yield c
            for j in range(len(t)):
                if len(t) > 1:
                    c = cp()
                    del c["threads"][i][j]
                    yield c
        if "sched" in case:
            for s in sched.merged(case["sched"]):
                yield dict(case, sched=s)
