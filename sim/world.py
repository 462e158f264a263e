"""Problem generator and builder: a JSON spec fully determines an Objective and its tensors."""
import math

import numpy as np
import torch
import theseus as th

from .core import CaseInvalid
from .faults import HOOK

DT = {"float64": torch.float64, "float32": torch.float32}
MAN = ("Vector", "Point2", "Point3", "SO2", "SE2", "SO3", "SE3")
DOF = {"Point2": 2, "Point3": 3, "SO2": 1, "SE2": 3, "SO3": 3, "SE3": 6}


# ------------------------------------------------------------------ tensors (harness's own construction)
def _rot(v):
    th_ = np.linalg.norm(v)
    K = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
    if th_ < 1e-9:
        return np.eye(3) + K + 0.5 * K @ K
    return np.eye(3) + math.sin(th_) / th_ * K + (1 - math.cos(th_)) / th_**2 * K @ K


def data(t, d, b, seed, scale=1.0, shape=None):
    rs = np.random.RandomState(seed % (2**31))
    if t in ("Vector", "Point2", "Point3"):
        return rs.randn(b, d) * scale
    if t == "SO2":
        a = rs.randn(b) * scale
        return np.stack([np.cos(a), np.sin(a)], 1)
    if t == "SE2":
        a = rs.randn(b) * scale
        return np.concatenate([rs.randn(b, 2) * scale, np.stack([np.cos(a), np.sin(a)], 1)], 1)
    if t == "SO3":
        return np.stack([_rot(rs.randn(3) * 0.6 * min(scale, 2.0)) for _ in range(b)])
    if t == "SE3":
        R = np.stack([_rot(rs.randn(3) * 0.6 * min(scale, 2.0)) for _ in range(b)])
        return np.concatenate([R, rs.randn(b, 3, 1) * scale], 2)
    if t == "Var":
        return rs.randn(b, *shape) * scale
    if t == "Pos":
        return np.exp(0.3 * rs.randn(b, *shape) * scale)
    if t == "Spd":
        n = shape[0]
        a = rs.randn(b, n, n) * 0.3
        return np.einsum("bij,bkj->bik", a, a) + np.eye(n)
    if t == "Wgt":  # cost weight values: bounded away from 0
        return (0.4 + rs.rand(b, *shape)) * scale
    raise ValueError(t)


def tensor(t, d, b, seed, dtype, scale=1.0, shape=None):
    x = torch.from_numpy(np.ascontiguousarray(data(t, d, b, seed, scale, shape)))
    return x.to(DT[dtype] if isinstance(dtype, str) else dtype, copy=True)  # memory aligned by torch, not by numpy


def var_tensor(v, dtype, b=None, seed=None, scale=None):
    """v: variable entry of a spec. Zero masks of weights are applied here."""
    b = v["b"] if b is None else b
    x = tensor(v["t"], v.get("d"), b, v["s"] if seed is None else seed, dtype,
               v.get("sc", 1.0) if scale is None else scale, v.get("shape"))
    z = v.get("z")
    if z == "all":
        x = x * 0
    elif z == "some":
        m = np.random.RandomState((v["s"] if seed is None else seed) + 17).rand(b) < 0.5
        x = x.clone()
        x[torch.from_numpy(m)] = 0
    elif z == "dim" and x.ndim == 2 and x.shape[1] > 1:
        x = x.clone()
        x[:, 0] = 0
    return x


def mk_manifold(t, d, tens, name):
    if t == "Vector":
        return th.Vector(tensor=tens, name=name)
    return getattr(th, t)(tensor=tens, name=name)


# ------------------------------------------------------------------ user error functions (autodiff)
def _flat(v):
    return v.tensor.reshape(v.tensor.shape[0], -1)


def f_lin(optim_vars, aux_vars):
    HOOK("err_fn")
    (x,), (a,) = optim_vars, aux_vars
    return x.tensor * 1.3 - a.tensor + 0.1 * torch.sin(x.tensor)


def f_quad(optim_vars, aux_vars):
    HOOK("err_fn")
    (x,), (a,) = optim_vars, aux_vars
    return x.tensor - 0.5 * a.tensor + 0.1 * x.tensor**2


class FnObj:
    """callable objects of one class with different constants: same type, different function"""

    def __init__(self, c):
        self.c = c

    def __call__(self, optim_vars, aux_vars):
        HOOK("err_fn")
        (x,), (a,) = optim_vars, aux_vars
        return self.c * x.tensor - torch.tanh(a.tensor)


f_objA = FnObj(0.7)
f_objB = FnObj(1.9)


def f_noaux(optim_vars, aux_vars):
    HOOK("err_fn")
    (x,) = optim_vars
    return 0.8 * x.tensor + 0.2 * torch.tanh(x.tensor) - 0.1


def f_pair(optim_vars, aux_vars):
    HOOK("err_fn")
    (x, y), (a,) = optim_vars, aux_vars
    return x.tensor - 0.5 * y.tensor + torch.tanh(a.tensor)


def f_local(optim_vars, aux_vars):
    HOOK("err_fn")
    (x,), (a,) = optim_vars, aux_vars
    return a.inverse().compose(x).log_map()


def f_flat(optim_vars, aux_vars):
    HOOK("err_fn")
    (x,), (a,) = optim_vars, aux_vars
    return _flat(x) - 0.9 * _flat(a)


FNS = dict(lin=f_lin, quad=f_quad, objA=f_objA, objB=f_objB, noaux=f_noaux, pair=f_pair, local=f_local, flat=f_flat)


# ------------------------------------------------------------------ harness cost functions / weights
class SimCost(th.CostFunction):
    """A user-written cost function with analytic jacobians: e = g*(x - a) + 0.1*(x-a)^3 (Vector types)."""

    def __init__(self, x, a, cost_weight, gain=1.0, name=None):
        super().__init__(cost_weight, name=name)
        self.x, self.a, self.gain = x, a, gain
        self.register_optim_vars(["x"])
        self.register_aux_vars(["a"])

    def error(self):
        HOOK("cost_error")
        d = self.x.tensor - self.a.tensor
        return self.gain * d + 0.1 * d**3

    def jacobians(self):
        HOOK("cost_jac")
        d = self.x.tensor - self.a.tensor
        return [torch.diag_embed(self.gain + 0.3 * d**2)], self.gain * d + 0.1 * d**3

    def dim(self):
        return self.x.dof()

    def _copy_impl(self, new_name=None):
        return SimCost(self.x.copy(), self.a.copy(), self.weight.copy(), gain=self.gain, name=new_name)


class SimCost2(SimCost):
    """Same variables as SimCost, different error (schema must tell them apart)."""

    def error(self):
        HOOK("cost_error")
        d = self.x.tensor - 2 * self.a.tensor
        return torch.sin(0.3 * d) + d

    def jacobians(self):
        HOOK("cost_jac")
        d = self.x.tensor - 2 * self.a.tensor
        return [torch.diag_embed(0.3 * torch.cos(0.3 * d) + 1)], torch.sin(0.3 * d) + d

    def _copy_impl(self, new_name=None):
        return SimCost2(self.x.copy(), self.a.copy(), self.weight.copy(), gain=self.gain, name=new_name)


class SimNasty(SimCost):
    """badly behaved landscapes"""

    def _d(self):
        return self.x.tensor - self.a.tensor

    def error(self):
        HOOK("cost_error")
        return self._e(self._d())

    def jacobians(self):
        HOOK("cost_jac")
        d = self._d()
        return [torch.diag_embed(self._j(d))], self._e(d)

    def _copy_impl(self, new_name=None):
        return type(self)(self.x.copy(), self.a.copy(), self.weight.copy(), gain=self.gain, name=new_name)


class NWall(SimNasty):  # discontinuity
    def _e(self, d):
        return d + 50.0 * (d < 0.3).to(d.dtype)

    def _j(self, d):
        return torch.ones_like(d)


class NNan(SimNasty):  # undefined beyond a boundary
    def _e(self, d):
        return torch.sqrt(1.5 - d) + d

    def _j(self, d):
        return 1 - 0.5 / torch.sqrt(1.5 - d)


class NExp(SimNasty):  # overflows
    def _e(self, d):
        return torch.exp(-40.0 * d) + d

    def _j(self, d):
        return -40.0 * torch.exp(-40.0 * d) + 1


class NBad(SimNasty):  # gradient points uphill
    def _e(self, d):
        return d * d + d

    def _j(self, d):
        return -(2 * d + 1)


class NFlat(SimNasty):  # no gradient at all
    def _e(self, d):
        return 1.0 + torch.floor(3 * d)

    def _j(self, d):
        return torch.zeros_like(d)


class NOsc(SimNasty):  # far too optimistic gradient
    def _e(self, d):
        return torch.sin(20.0 * d) + 0.1 * d

    def _j(self, d):
        return 20.0 * torch.cos(20.0 * d) * 0.05 + 0.1


NASTY = dict(nwall=NWall, nnan=NNan, nexp=NExp, nbad=NBad, nflat=NFlat, nosc=NOsc)


class SimWeight(th.CostWeight):
    """A user-written weight (no is_zero support): w = 0.5 + scale^2."""

    def __init__(self, scale, name=None):
        super().__init__(name=name)
        self.scale = scale
        self.register_aux_vars(["scale"])

    def is_zero(self):
        raise NotImplementedError

    def _w(self):
        HOOK("weight")
        return 0.5 + self.scale.tensor**2

    def weight_error(self, error):
        return error * self._w()

    def weight_jacobians_and_error(self, jacobians, error):
        w = self._w()
        return [j * w.view(-1, 1, 1) for j in jacobians], error * w

    def _copy_impl(self, new_name=None):
        return SimWeight(self.scale.copy(), name=new_name)


# ------------------------------------------------------------------ spec generation
def o_mix(g):
    return g.o["optmix"] and g.r.p(g.o["optmix"])


class SpecGen:
    def __init__(self, rng, **opt):
        self.r = rng
        o = dict(B=None, dtype=None, types=None, nv=(1, 4), nextra=(0, 5), robust=0.25, zero=0.15, embodied=True,
                 autodiff=True, shared=0.4, b1=0.35, maxc=9, prior=True, gnc=True, simcost=True, tame=False,
                 wb=None, batch_aux=True, optb1=0.0, optmix=0, nasty=0, prior_all=False, akw=0.0, gpdt=0.0)
        o.update(opt)
        self.o = o
        self.B = o["B"] or rng.choice([1, 2, 3, 3, 4])
        self.dtype = o["dtype"] or rng.wchoice([("float64", 4), ("float32", 1)])
        self.spec = dict(dtype=self.dtype, B=self.B, vars=[], w=[], c=[])
        self.vars = self.spec["vars"]  # every variable: role o / a / w
        self.k = 0
        # non-variable state of user cost functions is the same for all instances of a class (see known finding KF1)
        self.gain = rng.choice([1.0, 0.6])

    def _b(self):
        if not self.o["batch_aux"]:
            return 1
        return 1 if self.r.p(self.o["b1"]) else self.B

    def name(self, p):
        self.k += 1
        return f"{p}{self.k}"

    def add_var(self, t, d=None, role="a", b=None, shape=None, sc=1.0, **kw):
        v = dict(n=self.name({"o": "x", "a": "a", "w": "s"}[role]), t=t, role=role, b=b or self._b(), s=self.r.seed_int(), sc=sc, **kw)
        if d is not None:
            v["d"] = d
        if shape is not None:
            v["shape"] = list(shape)
        self.vars.append(v)
        return v

    def optim(self, t=None):
        r = self.r
        t = t or r.choice(self.types)
        d = self.vec_d if t == "Vector" else DOF[t]
        return self.add_var(t, d, "o", b=1 if o_mix(self) else self.ob)

    def aux(self, t, d=None, shape=None, sc=1.0, share=True, b=None):
        if share and b is None and self.r.p(self.o["shared"]):
            c = [v for v in self.vars if v["role"] == "a" and v["t"] == t and v.get("d") == d and v.get("shape") == (list(shape) if shape else None)
                 and v.get("sc", 1.0) == sc]
            if c:
                return self.r.choice(c)
        return self.add_var(t, d, "a", shape=shape, sc=sc, b=b)

    def weight(self, dim):
        r = self.r
        if r.p(self.o["shared"]):
            c = [w for w in self.spec["w"] if w["k"] in ("scale", "sim") or (w["k"] == "diag" and w["dim"] == dim)]
            if c:
                return r.choice(c)["n"]
        k = r.wchoice([("scale", 5), ("diag", 4), ("sim", 1 if self.o["simcost"] else 0)])
        z = "none"
        if k != "sim" and r.p(self.o["zero"]):
            z = r.choice(["some", "some", "all", "dim"] if k == "diag" else ["some", "all"])
        shape = [1] if k in ("scale", "sim") else [dim]
        b = self.o["wb"] or self._b()
        v = self.add_var("Wgt", role="w", shape=shape, b=b, sc=1.0, z=z)
        w = dict(n=self.name("w"), k=k, dim=dim, v=v["n"])
        self.spec["w"].append(w)
        return w["n"]

    def cost(self, k, vs, aux, dim, **kw):
        r = self.r
        aux = list(aux)
        for i, a in enumerate(aux):  # one function never takes the same variable twice
            if any(a is x for x in aux[:i]):
                aux[i] = self.add_var(a["t"], a.get("d"), "a", b=a["b"], shape=a.get("shape"), sc=a.get("sc", 1.0))
        c = dict(n=self.name("c"), k=k, v=[v["n"] for v in vs], a=[a["n"] for a in aux], dim=dim, **kw)
        if "w" not in c:
            c["w"] = self.weight(dim)
        if self.o["robust"] and k != "gp" and r.p(self.o["robust"]) and not kw.get("norobust"):
            loss = r.wchoice([("welsch", 3), ("huber", 3), ("gnc", 1 if self.o["gnc"] else 0)])
            rad = self.aux("Var", shape=[1], sc=0.5)
            if rad["n"] in c["a"]:
                rad = self.add_var("Var", None, "a", shape=[1], sc=0.5)
            c["robust"] = dict(loss=loss, r=rad["n"], flat=r.p(0.4))
            if loss == "gnc":
                mu = self.aux("Pos", shape=[1])
                if mu["n"] in c["a"]:
                    mu = self.add_var("Pos", None, "a", shape=[1])
                c["robust"]["mu"] = mu["n"]
        c.pop("norobust", None)
        self.spec["c"].append(c)
        return c

    def gen(self):
        r, o = self.r, self.o
        pool = list(o["types"] or MAN)
        self.types = r.sample(pool, min(len(pool), r.choice([1, 1, 2])))
        self.vec_d = r.choice([1, 2, 3])
        nv = r.randint(*o["nv"])
        self.ob = 1 if (self.B > 1 and r.p(o["optb1"])) else self.B
        ov = [self.optim() for _ in range(nv)]
        for v in ov:
            if o["prior"] or r.p(0.7):
                self.prior(v)
        for _ in range(r.randint(*o["nextra"])):
            if len(self.spec["c"]) >= o["maxc"]:
                break
            self.extra(r.choice([v for v in self.vars if v["role"] == "o"]))
        # any optimization variable left without a cost gets a prior
        used = {n for c in self.spec["c"] for n in c["v"] if not o["prior_all"] or c["k"] == "local"}
        for v in self.vars:
            if v["role"] == "o" and v["n"] not in used:
                self.prior(v)
        return self.spec

    def prior(self, v):
        """full-rank, non-zero weight, not robust: keeps the problem well conditioned"""
        wv = self.add_var("Wgt", role="w", shape=[1], b=self.o["wb"] or self._b(), sc=1.0, z="none")
        w = dict(n=self.name("w"), k="scale", dim=v["d"], v=wv["n"])
        self.spec["w"].append(w)
        a = self.aux(v["t"], v["d"])
        self.spec["c"].append(dict(n=self.name("c"), k="local", v=[v["n"]], a=[a["n"]], dim=v["d"], w=w["n"]))

    def same(self, v):
        return [u for u in self.vars if u["role"] == "o" and u["t"] == v["t"] and u["d"] == v["d"] and u is not v]

    def need(self, t, d, n, first):
        """n distinct optim vars of type t (d dims), starting with `first`, creating if necessary"""
        out = [first]
        for u in self.same(first):
            if len(out) < n:
                out.append(u)
        while len(out) < n:
            if sum(v["role"] == "o" for v in self.vars) >= 7:
                return None
            out.append(self.add_var(t, d, "o", b=1 if o_mix(self) else self.ob))
        return out

    def extra(self, v):
        r, o = self.r, self.o
        t, d = v["t"], v["d"]
        vec = t in ("Vector", "Point2", "Point3")
        kinds = [("local", 2), ("between", 3 if self.same(v) else 1)]
        if o["autodiff"]:
            kinds += [("auto", 5)]
        if vec and o["simcost"]:
            kinds += [("sim", 2)]
        if vec and o["nasty"]:
            kinds += [("nasty", o["nasty"])]
        if o["embodied"]:
            kinds += [("mfb", 0.7), ("di", 0.5), ("gp", 0.7)]
            if t == "Vector":
                kinds += [("hinge", 1)]
            if t in ("Point2", "SE2"):
                kinds += [("coll", 1.2)]
            if t == "SE2":
                kinds += [("nonh", 0.7), ("push", 0.5), ("eff", 0.7)]
            if t == "SE3":
                kinds += [("reproj", 1.2)]
        if o["optmix"] or o["optb1"]:  # these do not broadcast batch-1 poses (they raise)
            kinds = [x for x in kinds if x[0] not in ("coll", "eff", "push")]
        k = r.wchoice(kinds)
        if k == "local":
            return self.cost("local", [v], [self.aux(t, d)], d)
        if k == "nasty":
            return self.cost(r.choice(sorted(NASTY)), [v], [self.aux(t, d)], d, norobust=True)
        if k == "sim":
            return self.cost(r.choice(["sim", "sim2"]), [v], [self.aux(t, d)], d, gain=self.gain)
        if k == "between":
            vs = self.need(t, d, 2, v)
            if not vs:
                return
            r.shuffle(vs)
            return self.cost("between", vs, [self.aux(t, d)], d)
        if k == "mfb":
            vs = self.need(t, d, 4, v)
            if vs:
                r.shuffle(vs)
                return self.cost("mfb", vs, [self.aux(t, d)], d)
            return
        if k in ("di", "gp"):
            vs = self.need(t, d, 2, v)
            if not vs:
                return
            vel = [u for u in self.vars if u["role"] == "o" and u["t"] == "Vector" and u["d"] == d and u not in vs][:2]
            while len(vel) < 2:
                vel.append(self.add_var("Vector", d, "o", b=self.ob))
            dt = self.aux("Pos", shape=[1], b=None if o["gpdt"] and r.p(o["gpdt"]) else 1)
            vv = [vs[0], vel[0], vs[1], vel[1]]
            if k == "di":
                return self.cost("di", vv, [dt], 2 * d)
            for _ in range(2 if o["gpdt"] and r.p(o["gpdt"]) else 1):
                q = self.add_var("Spd", role="w", shape=[d, d], b=self._b())
                w = dict(n=self.name("w"), k="gp", dim=2 * d, v=q["n"], dt=dt["n"])
                self.spec["w"].append(w)
                c = self.cost("gp", vv, [dt], 2 * d, w=w["n"])
                vv = vv[2:] + vv[:2]
            return c
        if k == "hinge":
            lo = self.add_var("Var", role="a", shape=[d], sc=0.2, off=-0.8)
            hi = self.add_var("Var", role="a", shape=[d], sc=0.2, off=0.8)
            thr = self.add_var("Wgt", role="a", shape=[d], sc=0.1)
            return self.cost("hinge", [v], [lo, hi, thr], d)
        if k in ("coll", "eff"):
            org = self.aux("Point2", 2, sc=0.1, b=self.B if False else None)
            sdf = self.aux("Var", shape=[6, 7], sc=0.5)
            cell = self.aux("Pos", shape=[1], sc=0.2)
            eps = self.aux("Wgt", shape=[1], sc=0.7)
            if k == "coll":
                return self.cost("coll", [v], [org, sdf, cell, eps], 1)
            vs = self.need(t, d, 2, v)
            return self.cost("eff", vs, [org, sdf, cell, eps], 1) if vs else None
        if k == "nonh":
            vel = [u for u in self.vars if u["role"] == "o" and u["t"] == "Vector" and u["d"] == 3]
            vel = vel[0] if vel else self.add_var("Vector", 3, "o", b=self.ob)
            return self.cost("nonh", [v, vel], [], 1)
        if k == "push":
            vs = self.need(t, d, 4, v)
            return self.cost("push", vs, [self.aux("Pos", shape=[1])], 3) if vs else None
        if k == "reproj":
            pt = [u for u in self.vars if u["role"] == "o" and u["t"] == "Point3"]
            pt = pt[0] if pt else self.add_var("Point3", 3, "o", b=self.ob, off3=True)
            f = self.aux("Pos", shape=[1], sc=0.2)
            f["t"] = "Pos"
            im = self.aux("Point2", 2)
            k1 = self.aux("Vector", 1, sc=0.05)
            k2 = self.aux("Vector", 1, sc=0.05)
            return self.cost("reproj", [v, pt], [im, f, k1, k2], 2)
        if k == "auto":
            mode = r.choice(["vmap", "vmap", "dense", "loop_batch"])
            b = None
            fns = ["flat"] if t != "Vector" and not vec else ["lin", "quad", "objA", "objB", "noaux", "flat"]
            if not vec:
                fns = ["flat", "local"]
            if vec and self.same(v):
                fns.append("pair")
            fn = r.choice(fns)
            dim = {"Vector": d, "Point2": 2, "Point3": 3, "SO2": 2, "SE2": 4, "SO3": 9, "SE3": 12}[t] if fn != "local" else d
            aux = [] if fn == "noaux" else [self.aux(t, d, b=b, share=b is None)]
            vs = [v] if fn != "pair" else self.need(t, d, 2, v)
            kw = {}
            if o["akw"] and r.p(o["akw"]):
                kw = dict(akw=r.choice([dict(autograd_create_graph=False), dict(autograd_create_graph=False), dict(autograd_vectorize=True),
                                        dict(autograd_create_graph=False, autograd_vectorize=True)]))
            return self.cost("auto", vs, aux, dim, mode=mode, fn=fn, **kw)


def gen_spec(rng, **opt):
    return SpecGen(rng, **opt).gen()


# ------------------------------------------------------------------ building
class World:
    pass


def init_tensor(v, dtype):
    x = var_tensor(v, dtype)
    if v.get("off"):
        x = x + v["off"]
    if v.get("off3"):
        x = x.clone()
        x[:, 2] = x[:, 2] * 0.3 + 4.0
    return x


def loss_cls(n):
    return dict(welsch=th.WelschLoss, huber=th.HuberLoss, gnc=th.GemanMcClureLoss)[n]


def build_cost(c, V, W):
    k = c["k"]
    v = [V[n] for n in c["v"]]
    a = [V[n] for n in c["a"]]
    w, n = W[c["w"]], c["n"]
    rb = c.get("robust")
    inner = n if not rb else n + "_in"
    if k == "local":
        f = th.Local(v[0], a[0], w, name=inner)
    elif k == "between":
        f = th.Between(v[0], v[1], a[0], w, name=inner)
    elif k == "mfb":
        f = th.eb.MovingFrameBetween(v[0], v[1], v[2], v[3], a[0], w, name=inner)
    elif k == "sim":
        f = SimCost(v[0], a[0], w, gain=c["gain"], name=inner)
    elif k == "sim2":
        f = SimCost2(v[0], a[0], w, gain=c["gain"], name=inner)
    elif k in NASTY:
        f = NASTY[k](v[0], a[0], w, name=inner)
    elif k == "di":
        f = th.eb.DoubleIntegrator(v[0], v[1], v[2], v[3], a[0], w, name=inner)
    elif k == "gp":
        f = th.eb.GPMotionModel(v[0], v[1], v[2], v[3], a[0], w, name=inner)
    elif k == "hinge":
        f = th.eb.HingeCost(v[0], a[0], a[1], a[2], w, name=inner)
    elif k == "coll":
        f = th.eb.Collision2D(v[0], a[0], a[1], a[2], a[3], w, name=inner)
    elif k == "eff":
        f = th.eb.EffectorObjectContactPlanar(v[0], v[1], a[0], a[1], a[2], a[3], w, name=inner)
    elif k == "nonh":
        f = th.eb.Nonholonomic(v[0], v[1], w, name=inner)
    elif k == "push":
        f = th.eb.QuasiStaticPushingPlanar(v[0], v[1], v[2], v[3], a[0], w, name=inner)
    elif k == "reproj":
        f = th.eb.Reprojection(v[0], v[1], a[0], a[1], calib_k1=a[2], calib_k2=a[3], weight=w, name=inner)
    elif k == "auto":
        f = th.AutoDiffCostFunction(v, FNS[c["fn"]], c["dim"], cost_weight=w, aux_vars=a, name=inner, autograd_mode=c["mode"],
                                    **c.get("akw", {}))
    else:
        raise CaseInvalid(k)
    if rb:
        if rb["loss"] == "gnc":
            f = th.GNCRobustCostFunction(f, loss_cls("gnc"), V[rb["r"]], V[rb["mu"]], flatten_dims=rb["flat"], name=n)
        else:
            f = th.RobustCostFunction(f, loss_cls(rb["loss"]), V[rb["r"]], flatten_dims=rb["flat"], name=n)
    return f


def build(spec, tensors=None, dtype=None, order=None, vectorize=False, objective=None):
    """tensors: name -> tensor overriding the initial values (already in the target dtype)."""
    dtype = dtype or spec["dtype"]
    W = World()
    W.spec, W.dtype = spec, DT[dtype]
    V = {}
    need = used_names(spec)
    for v in spec["vars"]:
        if v["n"] not in need:
            continue
        x = tensors[v["n"]] if tensors is not None and v["n"] in tensors else init_tensor(v, dtype)
        if v["t"] in MAN:
            with th.no_lie_group_check(silent=True):
                V[v["n"]] = mk_manifold(v["t"], v.get("d"), x, v["n"])
        else:
            V[v["n"]] = th.Variable(x, name=v["n"])
    ws = {}
    for w in spec["w"]:
        if w["v"] not in V:
            continue
        if w["k"] == "scale":
            ws[w["n"]] = th.ScaleCostWeight(V[w["v"]], name=w["n"])
        elif w["k"] == "diag":
            ws[w["n"]] = th.DiagonalCostWeight(V[w["v"]], name=w["n"])
        elif w["k"] == "sim":
            ws[w["n"]] = SimWeight(V[w["v"]], name=w["n"])
        elif w["k"] == "gp":
            ws[w["n"]] = th.eb.GPCostWeight(V[w["v"]], V[w["dt"]], name=w["n"])
    W.vars, W.weights = V, ws
    W.obj = objective or th.Objective(dtype=DT[dtype])
    W.costs = {}
    cs = spec["c"] if order is None else [spec["c"][i] for i in order]
    for c in cs:
        f = build_cost(c, V, ws)
        W.costs[c["n"]] = f
        W.obj.add(f)
    if vectorize:
        th.Vectorize(W.obj)
    W.optim = [v["n"] for v in spec["vars"] if v["role"] == "o" and v["n"] in W.obj.optim_vars]
    return W


def used_names(spec):
    wmap = {w["n"]: w for w in spec["w"]}
    s = set()
    for c in spec["c"]:
        s |= set(c["v"]) | set(c["a"])
        if c["w"] not in wmap:
            raise CaseInvalid("weight")
        w = wmap[c["w"]]
        s.add(w["v"])
        if w["k"] == "gp":
            s.add(w["dt"])
        if c.get("robust"):
            s.add(c["robust"]["r"])
            if "mu" in c["robust"]:
                s.add(c["robust"]["mu"])
    return s


def vmap_of(spec):
    return {v["n"]: v for v in spec["vars"]}


def snapshot(W):
    """name -> detached clone of every variable tensor"""
    return {n: v.tensor.detach().clone() for n, v in W.vars.items()}


def set_tensors(W, tensors):
    for n, t in tensors.items():
        W.vars[n].update(t)


def rand_inputs(spec, seed, names=None, scale=None, b=None):
    """fresh values for the given variables (in spec dtype)"""
    out = {}
    for i, v in enumerate(spec["vars"]):
        if names is not None and v["n"] not in names:
            continue
        u = dict(v)
        u["s"] = (seed * 1000003 + i * 7919 + 11) % (2**30)
        if b is not None and v["b"] != 1:
            u["b"] = b
        out[v["n"]] = init_tensor(u, spec["dtype"])
    return out


# ------------------------------------------------------------------ comparison
def tol(dtype, k=1.0):
    return (1e-8 * k, 1e-9 * k) if dtype in (torch.float64, "float64") else (5e-4 * k, 5e-5 * k)


def close(a, b, dtype=None, k=1.0):
    """NaN-aware closeness (NaN equals NaN, inf equals same inf)."""
    if a.shape != b.shape:
        return False
    if a.dtype != b.dtype:
        return False
    rt, at = tol(dtype or a.dtype, k)
    return torch.allclose(a.detach(), b.detach(), rtol=rt, atol=at * (1 + float(_fin_max(b))), equal_nan=True)


def _fin_max(t):
    t = t.detach()
    t = t[torch.isfinite(t)]
    return t.abs().max() if t.numel() else 0.0


def same_bits(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and a.detach().numpy().tobytes() == b.detach().numpy().tobytes()


def diff(a, b):
    if a.shape != b.shape:
        return f"shape {tuple(a.shape)} vs {tuple(b.shape)}"
    if a.dtype != b.dtype:
        return f"dtype {a.dtype} vs {b.dtype}"
    d = (a.detach() - b.detach()).abs()
    return f"max abs diff {float(torch.nan_to_num(d, nan=-1).max()):.3g} (nan a/b: {int(a.isnan().sum())}/{int(b.isnan().sum())})"


def lin_mats(lin):
    """dense (A, b) of a DenseLinearization after linearize()"""
    return lin.A, lin.b


def describe(spec):
    """compact fingerprint of the structure"""
    return [(c["k"], c.get("mode"), c.get("fn"), bool(c.get("robust")), (c.get("robust") or {}).get("flat")) for c in spec["c"]]


# ------------------------------------------------------------------ spec shrinking
def shrink_spec(spec):
    for i in range(len(spec["c"])):
        s = dict(spec)
        s["c"] = spec["c"][:i] + spec["c"][i + 1 :]
        if s["c"]:
            yield gc(s)
    for i, c in enumerate(spec["c"]):
        if c.get("robust"):
            s = dict(spec)
            s["c"] = [dict(x) for x in spec["c"]]
            del s["c"][i]["robust"]
            yield gc(s)


def mixed_attr(spec):
    """two user cost functions of one class that differ in plain Python state"""
    g = {}
    for c in spec["c"]:
        if c["k"] in ("sim", "sim2"):
            g.setdefault(c["k"], set()).add(c["gain"])
    return any(len(x) > 1 for x in g.values())


def gc(spec):
    s = dict(spec)
    ws = {c["w"] for c in s["c"]}
    s["w"] = [w for w in s["w"] if w["n"] in ws]
    u = used_names(s)
    s["vars"] = [v for v in s["vars"] if v["n"] in u]
    return s
