"""C16 - iterates stay on their manifold."""
import math
import warnings

import numpy as np
import torch
import theseus as th
import torchlie as lie
from torch.utils._python_dispatch import _disable_current_modes

from .. import hist, layers as ly, world as wd
from ..core import Rng, SimAllocFailure
from ..faults import HOOK, OpFault, PLAN
from .c13 import LineFault

RUNS = {"quick": 900, "thorough": 60000}
RULE = ("a run is a history of 5-120 operations of one of four kinds: (a) chains of group operations on a pool of variables, (b) retractions, masked updates and whole "
        "optimizations of an objective (vectorized or not; rejected, scaled and failing steps), (c) torchlie tensors stepped in place by torch optimizers, "
        "(d) construction from valid, slightly invalid and garbage data; step sizes from 1e-12 to 1e10, near multiples of pi, allocation failures at chosen operations or lines. After "
        "every operation each variable must be on its manifold up to rounding and equal to what a numpy model of the group computes; non-trivial if "
        "at least 5 steps were checked")
REAL = ["SO2/SE2/SO3/SE3 and point classes", "torchlie functional groups and LieTensor", "Objective / Vectorize retractions", "nonlinear optimizers", "torch.optim"]
STUB = ["user cost functions", "tensor allocator"]
ASSUMPTIONS = ["rounding errors may accumulate linearly with the number of steps; finite step sizes up to 1e10",
               "LieTensor: only optimizers torchlie supports have to succeed; unsupported ones must refuse without harm"]
EPS = {torch.float64: 2.3e-16, torch.float32: 1.2e-7}
GROUPS = ("SO2", "SE2", "SO3", "SE3")
K = 60.0  # rounding slack of a single operation, in units of eps (truncated series of the library included)


# ------------------------------------------------------------------ numpy model of the groups
def hat3(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0.0]])


def abc(t):
    """sin t/t, (1-cos t)/t^2, (t-sin t)/t^3"""
    if abs(t) < 1.0:
        a = b = c = 0.0
        f = 1.0
        for k in range(0, 14):
            # f = (-1)^k t^2k / (2k)!
            a += f / (2 * k + 1)
            b += f / ((2 * k + 1) * (2 * k + 2))
            c += f / ((2 * k + 1) * (2 * k + 2) * (2 * k + 3))
            f *= -t * t / ((2 * k + 1) * (2 * k + 2))
        return a, b, c
    return math.sin(t) / t, (1 - math.cos(t)) / t**2, (t - math.sin(t)) / t**3


def mexp(g, d):
    """d: (dof,) -> homogeneous matrix"""
    d = np.asarray(d, dtype=np.float64)
    if g in ("SO2", "SE2"):
        t = float(d[-1])
        R = np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])
        if g == "SO2":
            return R
        a, b, _ = abc(t)
        V = np.array([[a, -b * t], [b * t, a]])
        M = np.eye(3)
        M[:2, :2] = R
        M[:2, 2] = V @ d[:2]
        return M
    w = d[-3:]
    t = float(np.linalg.norm(w))
    a, b, c = abc(t)
    W = hat3(w)
    R = np.eye(3) + a * W + b * W @ W
    if g == "SO3":
        return R
    M = np.eye(4)
    M[:3, :3] = R
    M[:3, 3] = (np.eye(3) + b * W + c * W @ W) @ d[:3]
    return M


def tomat(g, x):
    """batch of data -> batch of homogeneous matrices, float64"""
    x = np.asarray(x, dtype=np.float64)
    b = len(x)
    if g == "SO2":
        return np.stack([np.array([[c, -s], [s, c]]) for c, s in x])
    if g == "SE2":
        M = np.tile(np.eye(3), (b, 1, 1))
        M[:, 0, 0] = M[:, 1, 1] = x[:, 2]
        M[:, 1, 0], M[:, 0, 1] = x[:, 3], -x[:, 3]
        M[:, :2, 2] = x[:, :2]
        return M
    if g == "SO3":
        return x.copy()
    M = np.tile(np.eye(4), (b, 1, 1))
    M[:, :3] = x
    return M


def split(g, M):
    n = 2 if g in ("SO2", "SE2") else 3
    return M[:, :n, :n], (M[:, :n, n] if g in ("SE2", "SE3") else np.zeros((len(M), n)))


def minv(g, M):
    R, t = split(g, M)
    out = M.copy()
    n = R.shape[1]
    Rt = np.swapaxes(R, 1, 2)
    out[:, :n, :n] = Rt
    if g in ("SE2", "SE3"):
        out[:, :n, n] = -np.einsum("bij,bj->bi", Rt, t)
    return out


def defect(g, M):
    """distance of the rotation part from orthonormality and from determinant one"""
    R, _ = split(g, M)
    n = R.shape[1]
    return float(max(np.abs(np.einsum("bij,bkj->bik", R, R) - np.eye(n)).max(), np.abs(np.linalg.det(R) - 1).max()))


def npy(x):
    return x.detach().as_subclass(torch.Tensor).double().numpy()


def shape_of(g, b):
    return {"SO2": (b, 2), "SE2": (b, 4), "SO3": (b, 3, 3), "SE3": (b, 3, 4)}[g]


DOF = {"SO2": 1, "SE2": 3, "SO3": 3, "SE3": 6}


class Checker:
    def __init__(self, ctx, dtype, **where):
        self.ctx, self.dtype, self.where = ctx, dtype, where
        self.eps = EPS[dtype]
        self.worst = 0.0

    def on_manifold(self, g, x, depth, what, slack=1.0):
        x = npy(x)
        self.ctx.ev(what, x)
        if not np.isfinite(x).all():
            self.ctx.violate("off-manifold", f"{what}: {g} data is not finite: {x.tolist()}", g=g, **self.where)
            return False
        e = defect(g, tomat(g, x))
        lim = slack * K * self.eps * (depth + 1)
        self.worst = max(self.worst, e / lim)
        if e > lim:
            self.ctx.violate("off-manifold", f"{what}: {g} is off its manifold by {e:.3e}, allowed {lim:.3e} after {depth} steps", g=g, **self.where)
            return False
        return True

    def series(self, g, d, vmax=None):
        """what the truncated series of exp around zero may be off by, by design: (rotation, translation)"""
        if g == "SO2":
            return 0.0, 0.0
        d = np.abs(np.asarray(d, dtype=np.float64)).reshape(-1, DOF[g])
        if g == "SE2":
            t, v = d[:, 2], d[:, :2].max(1)
        else:
            t = np.linalg.norm(d[:, -3:], axis=1)
            v = d[:, :3].max(1) if g == "SE3" else np.zeros(len(d))
        if vmax is not None:
            v = np.maximum(v, vmax)
        near = t < 0.033
        lo = 1e-6 if self.dtype == torch.float64 else 3e-2
        return float((near * t**3).max()), float((near * (t**2) * v + 8 * self.eps * v / np.maximum(t, lo)).max())

    def equals(self, g, x, M, what, rot=1.0, trans=1.0, ser=(0.0, 0.0)):
        """rot/trans: condition of the operation"""
        X = tomat(g, npy(x))
        if X.shape != M.shape:
            self.ctx.violate("wrong-element", f"{what}: shape {X.shape} instead of {M.shape}", g=g, **self.where)
            return False
        R, t = split(g, X)
        R2, t2 = split(g, M)
        er = float(np.abs(R - R2).max())
        et = float(np.abs(t - t2).max())
        lr, lt = K * self.eps * rot + ser[0], K * self.eps * trans + ser[0] * trans + ser[1]
        if not (er <= lr) or not (et <= lt):
            self.ctx.violate("wrong-element", f"{what}: {g} differs from the group by {er:.3e} (allowed {lr:.3e}) in rotation, {et:.3e} "
                             f"(allowed {lt:.3e}) in translation", g=g, **self.where)
            return False
        return True


# ------------------------------------------------------------------ generation
def gen_mag(rng):
    k = rng.wchoice([("unit", 4), ("log", 3), ("pi", 2), ("zero", 0.7), ("huge", 1), ("thr", 1.5)])
    if k == "unit":
        return ["r", rng.choice([0.1, 1.0, 1.0, 3.0])]
    if k == "log":
        return ["r", 10.0 ** rng.uniform(-12, 1)]
    if k == "pi":
        return ["a", math.pi * rng.choice([1, 1, 1, 2, 3, 4]) * (1 + rng.choice([0, 0, 1e-10, -1e-7, 1e-4, -1e-3, 1e-2]))]
    if k == "thr":
        return ["a", rng.choice([5e-3, 1e-2, 3e-2, 1e-6, 1e-3, 1e-7, 2e-1]) * rng.choice([0.97, 1.03, 0.5, 2.0])]
    if k == "zero":
        return ["r", 0.0]
    return ["r", 10.0 ** rng.uniform(1, 10)]


def delta(g_dof, rotdof, b, mag, seed, dtype):
    rs = np.random.RandomState(seed % (2**31))
    d = rs.randn(b, g_dof)
    kind, m = mag
    if kind == "r":
        d = d * m
    else:
        nr = d[:, g_dof - rotdof :]
        d[:, g_dof - rotdof :] = nr / np.maximum(np.linalg.norm(nr, axis=1, keepdims=True), 1e-12) * m
    return torch.from_numpy(d).to(dtype)


ROTDOF = {"SO2": 1, "SE2": 1, "SO3": 3, "SE3": 3}


def gen(rng, tier, i):
    kind = rng.wchoice([("geom", 4), ("obj", 3), ("opt", 2), ("make", 1.2)])
    dtype = rng.choice(["float64", "float64", "float32"])
    if kind == "geom":
        ops = []
        for _ in range(rng.choice([10, 30, 120])):
            k = rng.wchoice([("retract", 5), ("compose", 3), ("inverse", 2), ("between", 2), ("exp", 1), ("local", 1.5), ("copy", 0.5), ("cast", 0.3), ("quat", 0.7), ("rand", 0.5),
                             ("update", 0.7), ("norm", 0.5), ("mask", 0.7), ("slice", 0.5)])
            ops.append(dict(op=k, a=rng.randint(0, 3), b=rng.randint(0, 3), c=rng.randint(0, 3), mag=gen_mag(rng), s=rng.seed_int(), f=round(rng.random(), 4) if rng.p(0.08) else None))
        return dict(kind=kind, g=rng.choice(GROUPS), dtype=dtype, B=rng.choice([1, 2, 3]), mix=rng.p(0.3), ops=ops, s=rng.seed_int())
    if kind == "opt":
        return dict(kind=kind, g=rng.choice(["SO3", "SE3"]), dtype=dtype, B=rng.choice([1, 2, 3]), n=rng.choice([3, 10, 40]), s=rng.seed_int(), opt=rng.choice(sorted(OPTS)), lr=10.0 ** rng.uniform(-4, 1),
                    np=rng.choice([1, 1, 2]), faults=[[rng.randint(0, 40), round(rng.random(), 4)] for _ in range(rng.choice([0, 1, 2]))], loss=rng.choice(["local", "pts", "mixed"]),
                    sched=rng.p(0.3), foreach=rng.choice([None, None, False]))
    if kind == "make":
        return dict(kind=kind, dtype=dtype, n=rng.randint(5, 30), s=rng.seed_int())
    spec = wd.gen_spec(rng, nv=(1, 4), nextra=(0, 5), maxc=9, dtype=dtype, prior_all=True, types=None if rng.p(0.2) else ("SO2", "SE2", "SO3", "SE3", "SE2", "SE3"),
                       optb1=rng.choice([0, 0, 0.4]), optmix=0)
    ops = []
    for _ in range(rng.choice([5, 12, 40])):
        k = rng.wchoice([("retract", 6), ("opt", 0.8), ("update", 0.7), ("err", 0.5), ("vec", 0.4)])
        ops.append(dict(op=k, s=rng.seed_int(), mag=gen_mag(rng), mask=hist.gen_mask(rng, spec["B"]) if rng.p(0.4) else None, force=rng.p(0.3), g=rng.p(0.2), cfg=None, names=hist.gen_names(rng, spec),
                        f=round(rng.random(), 4) if rng.p(0.15) else None, sc=rng.choice([1.0, 1.0, 30.0]), b1=rng.p(0.2)))
        if k == "opt":
            c = ly.gen_cfg(rng, solvers=["chol", "lu"])
            if rng.p(0.3):
                c["step"] = rng.choice([5.0, 50.0])
            ops[-1]["cfg"] = c
            ops[-1]["call"] = ly.gen_call(rng, spec, c, B=spec["B"], modes=["unroll", "implicit", "truncated"])
            ops[-1]["plan"] = rng.choice([None, None, "fail", "scale"])
    return dict(kind=kind, spec=spec, ops=ops, vec=rng.p(0.6))


OPTS = {
    "sgd": ("SGD", {}), "sgdm": ("SGD", dict(momentum=0.9)), "nesterov": ("SGD", dict(momentum=0.9, nesterov=True)), "sgdmax": ("SGD", dict(maximize=True)),
    "adam": ("Adam", {}), "amsgrad": ("Adam", dict(amsgrad=True)), "rmsprop": ("RMSprop", {}), "rmspropc": ("RMSprop", dict(momentum=0.9, centered=True)), "adadelta": ("Adadelta", {}),
    "adamax": ("Adamax", {}), "nadam": ("NAdam", {}), "rprop": ("Rprop", {}),
    "adamw": ("AdamW", {}), "sgdwd": ("SGD", dict(weight_decay=0.1)), "adagrad": ("Adagrad", {}), "radam": ("RAdam", {}),
}
FOLLOW = {"sgd", "sgdm", "nesterov", "sgdmax", "adam", "amsgrad", "rmsprop", "rmspropc", "adadelta", "adamax", "rprop"}  # one additive update per step
MUST = {"sgd", "sgdm", "nesterov", "adam", "amsgrad", "rmsprop", "rmspropc"}


# ------------------------------------------------------------------ (a) chains of group operations
def norms(M, g):
    _, t = split(g, M)
    return float(np.abs(t).max())


def run_geom(case, ctx):
    g, dtype, B = case["g"], wd.DT[case["dtype"]], case["B"]
    cls = getattr(th, g)
    dof, rd = DOF[g], ROTDOF[g]
    rng = Rng("geom", case["s"])
    C = Checker(ctx, dtype, part="geom")
    pool, depth = [], []
    for j in range(4):
        b = 1 if case["mix"] and j % 2 else B
        gen_ = torch.Generator().manual_seed(rng.seed_int() % (1 << 31))
        pool.append((cls.rand if rng.p(0.5) else cls.randn)(b, generator=gen_, dtype=dtype))
        depth.append(1)
        C.on_manifold(g, pool[j].tensor, 1, "a random element")
    ctx.state(g, case["dtype"], B, case["mix"])
    done = 0
    for o in case["ops"]:
        ctx.step()
        k, a, b, c = o["op"], o["a"], o["b"], o["c"]
        X, Y = pool[a], pool[b]
        MX, MY = tomat(g, npy(X.tensor)), tomat(g, npy(Y.tensor))
        d = delta(dof, rd, X.shape[0], o["mag"], o["s"], dtype)
        nd = npy(d)
        wn = float(np.abs(nd[:, dof - rd :]).max()) if dof else 0.0
        vn = float(np.abs(nd).max())
        D = np.stack([mexp(g, r) for r in nd])
        before = [p.tensor.clone() for p in pool]
        ctx.state(g, k, int(math.log10(wn + 1e-30)))
        rot = trans = 1.0
        ser = (0.0, 0.0)
        dep = depth[a] + 1
        ref = None

        def act():
            if k == "retract":
                return X.retract(d)
            if k == "exp":
                return cls.exp_map(d)
            if k == "compose":
                return X.compose(Y)
            if k == "between":
                return X.between(Y)
            if k == "inverse":
                return X.inverse()
            if k == "copy":
                return X.copy(new_name="p")
            if k == "local":
                return X.retract(X.local(Y))
            if k == "rand":
                return cls.rand(X.shape[0], generator=torch.Generator().manual_seed(o["s"] % (1 << 31)), dtype=dtype)
            if k == "norm":
                return cls(tensor=cls.normalize(X.tensor), dtype=dtype)
            if k == "quat":
                if g == "SO3":
                    return th.SO3(quaternion=X.to_quaternion())
                if g == "SE3":
                    return th.SE3(x_y_z_quaternion=X.to_x_y_z_quaternion())
                if g == "SO2":
                    return th.SO2(theta=X.theta())
                return th.SE2(x_y_theta=torch.cat([X.tensor[:, :2], X.theta()], 1))
            if k == "cast":
                Z = X.copy(new_name="p")
                Z.to(dtype=torch.float64)
                Z.to(dtype=dtype)
                return Z
            if k in ("update", "mask"):
                Z = X.copy(new_name="p")
                m = None
                if k == "mask":
                    m = torch.tensor(np.random.RandomState(o["s"] % (2**31)).rand(X.shape[0]) < 0.5)
                Z.update(X.retract(d).tensor, batch_ignore_mask=m)
                return Z
            return cls(tensor=X.tensor[:1].expand(shape_of(g, X.shape[0])), dtype=dtype)  # slice

        broad = max(len(MX), len(MY))
        bx = np.broadcast_to(MX, (broad,) + MX.shape[1:])
        by = np.broadcast_to(MY, (broad,) + MY.shape[1:])
        if k in ("retract", "update", "mask"):
            ref = MX @ D
            if k == "mask":
                m = np.random.RandomState(o["s"] % (2**31)).rand(len(MX)) < 0.5
                ref[m] = MX[m]
            rot, trans = 1 + wn, (1 + wn) * (1 + vn) + norms(MX, g)
            ser = C.series(g, nd)
        elif k == "exp":
            ref, rot, trans, dep = D, 1 + wn, (1 + wn) * (1 + vn), 1
            ser = C.series(g, nd)
        elif k == "compose":
            ref, dep = bx @ by, depth[a] + depth[b] + 1
            trans = 1 + norms(MX, g) + norms(MY, g)
        elif k == "between":
            ref, dep = minv(g, bx) @ by, depth[a] + depth[b] + 1
            trans = 1 + norms(MX, g) + norms(MY, g)
        elif k == "inverse":
            ref, trans = minv(g, MX), 1 + norms(MX, g)
        elif k in ("copy", "cast"):
            ref, dep = MX, depth[a]
        elif k == "slice":
            ref, dep = np.broadcast_to(MX[:1], MX.shape), depth[a]
        elif k == "rand":
            dep = 1
        elif k == "norm":
            ref, dep = MX, 1
            rot, trans = depth[a] + 1, 1 + norms(MX, g)
        elif k == "local":  # arrive where the other one is
            ref, dep = by, max(depth[a] + depth[b] + 2, 1)
            rot = (depth[a] + depth[b] + 10) * 20
            trans = rot * (1 + norms(MX, g) + norms(MY, g))
            R, _ = split(g, minv(g, bx) @ by)
            n = R.shape[1]
            tr = np.trace(R, axis1=1, axis2=2)
            cosang = tr / 2 if n == 2 else (tr - 1) / 2
            if n == 3 and cosang.max() > 0.99:  # truncated series around zero
                ser = (1e-6, 1e-4 * trans)
            elif n == 3 and cosang.min() < -0.98:  # close to half a turn the axis is found with less accuracy
                ser = (1e5 * C.eps, 1e5 * C.eps * trans)
            elif g == "SE2" and cosang.max() > 0.99:
                ser = (0.0, (1e-9 if dtype == torch.float64 else 1e-3) * trans)
        elif k == "quat":
            ref, dep = MX, 1
            rot, trans = 20 * (depth[a] + 10), 1 + norms(MX, g)
            R, _ = split(g, MX)
            if R.shape[1] == 3 and ((np.trace(R, axis1=1, axis2=2) - 1) / 2).min() < -0.98:
                ser = (2 * math.sqrt(C.eps) * 10, 0.0)
        if trans * C.eps > 1e-3 * 1e7 or (trans > 1e12):
            continue  # translations outgrow the precision
        what = f"op {done} {k}"
        if o["f"] is not None:
            probe = OpFault(0)
            with probe:
                act()
            at = 1 + int(o["f"] * max(1, probe.n - 1))
            mode = OpFault(at)
            try:
                with mode:
                    act()
            except SimAllocFailure:
                ctx.fault("alloc_failure")
        try:
            Z = act()
        except RuntimeError as e:
            if k == "norm" and "svd" in str(e).lower():
                continue
            raise
        for p, q in zip(pool, before):
            if not wd.same_bits(p.tensor, q):
                ctx.violate("operand-changed", f"{what} changed one of the variables it was given", k=k, g=g)
        if Z.dtype != dtype or type(Z) is not cls:
            ctx.violate("wrong-element", f"{what}: {type(Z).__name__} of {Z.dtype} instead of {cls.__name__} of {dtype}", k=k, g=g)
        C.where["k"] = k
        ctx.probe("checked")
        done += 1
        if not C.on_manifold(g, Z.tensor, dep, what):
            break
        if ref is not None and not C.equals(g, Z.tensor, ref, what, rot, trans, ser):
            break
        if Z.shape[0] == pool[c].shape[0] and norms(tomat(g, npy(Z.tensor)), g) < 1e6:
            pool[c], depth[c] = Z, min(dep, 4000)
        if depth[c] > 2000:  # restart, so that the allowance stays meaningful
            pool[c] = cls(tensor=cls.normalize(pool[c].tensor.double()).to(dtype))
            depth[c] = 1
    if done >= 5:
        ctx.nontriv = True


# ------------------------------------------------------------------ (b) an objective
def ref_retract(g, dof, x, d):
    """numpy model of v.retract(d) with batch broadcasting -> (matrices | vectors)"""
    b = max(len(x), len(d))
    x = np.broadcast_to(x, (b,) + x.shape[1:])
    d = np.broadcast_to(d, (b, dof))
    if g in GROUPS:
        return tomat(g, x) @ np.stack([mexp(g, r) for r in d])
    return x + d


def check_retract(ctx, C, W, before, order, dl, mask, force, what, depth):
    dl = npy(dl)
    start = 0
    ok = True
    for v in order:
        g = type(v).__name__
        dof = v.dof()
        d = dl[:, start : start + dof]
        start += dof
        old = before[v.name]
        new = npy(v.tensor)
        C.where["t"] = g
        if not np.isfinite(d).all() or np.abs(d).max(initial=0) > 1e11 or not np.isfinite(old).all():
            depth[v.name] = None  # out of scope from here on
            continue
        ref = ref_retract(g, dof, old, d)
        keep = np.zeros(len(ref), dtype=bool)
        if mask is not None and not force:
            keep = np.broadcast_to(np.asarray(mask, dtype=bool), (len(ref),)).copy()
        if v.dtype != C.dtype:
            ctx.violate("wrong-element", f"{what}: {v.name} became {v.dtype}", t=g)
            ok = False
        if new.shape != (len(ref),) + old.shape[1:]:
            ctx.violate("wrong-element", f"{what}: {v.name} has shape {new.shape}", t=g)
            ok = False
            continue
        oldb = np.broadcast_to(old, new.shape)
        if keep.any() and not (new[keep] == oldb[keep]).all():
            ctx.violate("masked-row-moved", f"{what}: a masked row of {v.name} moved", t=g)
            ok = False
        rows = ~keep
        if rows.any():
            if g in GROUPS:
                rd = ROTDOF[g]
                for r in np.nonzero(rows)[0]:
                    dr = d[r if len(d) > 1 else 0]
                    wn, vn = float(np.abs(dr[dof - rd :]).max()), float(np.abs(dr).max())
                    tn = norms(tomat(g, oldb[r : r + 1]), g)
                    ok &= C.equals(g, torch.from_numpy(new[r : r + 1].copy()), ref[r : r + 1], f"{what}, {v.name} row {r}", 1 + wn, (1 + wn) * (1 + vn) + tn, C.series(g, dr))
            else:
                lim = 4 * C.eps * (np.abs(ref[rows]) + np.abs(oldb[rows]) + np.abs(np.broadcast_to(d, ref.shape)[rows])) + 1e-300
                if (np.abs(new[rows] - ref[rows]) > lim).any():
                    ctx.violate("wrong-element", f"{what}: {v.name} is not the sum of value and step", t=g)
                    ok = False
        ctx.probe("checked")
        if depth[v.name] is not None:
            depth[v.name] += 1
        if g in GROUPS and depth[v.name] is not None:
            if float(np.abs(new).max()) > 1e11:
                depth[v.name] = None
            else:
                ok &= C.on_manifold(g, v.tensor, depth[v.name], f"{what}, {v.name}")
    return ok


class Watch:
    """checks every retraction of the objective, whoever asks for it"""

    def __init__(self, ctx, W, C, depth):
        self.ctx, self.W, self.C, self.depth = ctx, W, C, depth
        self.n = 0
        self.orig = W.obj.retract_vars_sequence
        self.alive = True

    def __call__(self, delta, ordering, ignore_mask=None, force_update=False):
        order = list(ordering)
        with _disable_current_modes():  # the harness's own tensor operations are not part of the system
            before = {v.name: npy(v.tensor) for v in order}
        r = self.orig(delta, order, ignore_mask=ignore_mask, force_update=force_update)
        self.n += 1
        self.ctx.step()
        with _disable_current_modes():
            self.alive = self.alive and check_retract(self.ctx, self.C, self.W, before, order, delta, None if ignore_mask is None else ignore_mask.numpy(), force_update, f"retraction {self.n}", self.depth)
        return r


def run_obj(case, ctx):
    spec = case["spec"]
    dtype = wd.DT[spec["dtype"]]
    HOOK.reset()
    PLAN.reset()
    W = wd.build(spec, vectorize=case["vec"])
    W.obj.update()
    W.dtype_name = spec["dtype"]
    C = Checker(ctx, dtype, part="obj")
    ov = list(W.obj.optim_vars.values())
    depth = {v.name: 1 for v in ov}
    D = sum(v.dof() for v in ov)
    watch = Watch(ctx, W, C, depth)
    W.obj.retract_vars_sequence = watch
    ctx.state(wd.describe(spec), spec["B"], case["vec"])
    wmax = 0
    try:
        for i, o in enumerate(case["ops"]):
            ctx.step()
            k = o["op"]
            b = max(v.shape[0] for v in ov)
            if k == "vec":
                if W.obj.vectorized:
                    W.obj.disable_vectorization()
                else:
                    th.Vectorize(W.obj)
            elif k == "update":
                t = wd.rand_inputs(spec, o["s"], names=[n for n in o["names"] if n in W.vars])
                t = {n: x for n, x in t.items() if x.shape[0] == W.vars[n].shape[0] or W.vars[n].shape[0] == 1 and x.shape[0] == 1}
                W.obj.update(t)
                for n in t:
                    if n in depth:
                        depth[n] = 1
            elif k == "err":
                with torch.no_grad():
                    W.obj.error()
            elif k == "retract":
                order = list(ov)
                Rng("o", o["s"]).shuffle(order)
                nb = 1 if o["b1"] and not case["vec"] else b
                B = W.obj.batch_size
                if B is None or b != B:
                    nb = B if not o["b1"] else nb
                d = torch.cat([delta(v.dof(), ROTDOF.get(type(v).__name__, v.dof()), nb, o["mag"], o["s"] + 7 * j, dtype) for j, v in enumerate(order)], 1)
                m = None
                if o["mask"] is not None and nb == len(o["mask"]):
                    m = torch.tensor([bool(x) for x in o["mask"]])
                fm = None
                old = {v.name: v.tensor for v in order}
                with torch.set_grad_enabled(o["g"]):
                    if o["f"] is not None:
                        n = 30 * len(order)
                        fm = OpFault(1 + int(o["f"] * n))
                        failed = False
                        try:
                            with fm:
                                watch.orig(d, order, ignore_mask=m, force_update=o["force"])
                        except SimAllocFailure:
                            failed = True
                            ctx.fault("alloc_failure")
                        if failed:
                            # every variable is either as before or as after the step, valid in both cases
                            start = 0
                            for v in order:
                                dd = npy(d)[:, start : start + v.dof()]
                                start += v.dof()
                                g = type(v).__name__
                                if v.tensor is not old[v.name] and g in GROUPS and depth[v.name] is not None and np.abs(npy(v.tensor)).max() < 1e11:
                                    C.on_manifold(g, v.tensor, depth[v.name] + 1, f"op {i} failed retraction, {v.name}")
                                if v.tensor is old[v.name] or depth[v.name] is None:
                                    continue
                                depth[v.name] += 1
                        else:
                            for n_ in depth:
                                if depth[n_] is not None:
                                    depth[n_] += 1
                    W.obj.retract_vars_sequence(d, order, ignore_mask=m, force_update=o["force"])
            elif k == "opt":
                try:
                    opt = ly.make_optimizer(W.obj, o["cfg"], faulty=True)
                except ValueError:
                    continue
                if o["plan"] == "fail":
                    PLAN.fail_at = {1 + int((o["f"] or 0.5) * o["cfg"]["max_it"])}
                kw = ly.okw(o["cfg"], o["call"])
                hm = None
                if o["f"] is not None and o["plan"] is None:
                    hm = OpFault(1 + int(o["f"] * 1500))
                info = None
                try:
                    with torch.no_grad():
                        W.obj.update()
                        if hm is None:
                            with warnings.catch_warnings():
                                warnings.simplefilter("ignore")
                                info = opt.optimize(**kw)
                        else:
                            with hm:
                                info = opt.optimize(**kw)
                except (RuntimeError, ValueError, SimAllocFailure) as e:
                    ctx.ev("optimize raised", str(e)[:60])
                if hm is not None and hm.fired:
                    ctx.fault("alloc_failure")
                    # an interrupted retraction is not seen by the watch
                    for n_ in depth:
                        if depth[n_] is not None:
                            depth[n_] += 1
                if o["plan"] == "fail" and PLAN.fired.get("solver_failure"):
                    ctx.fault("linear_solver_failure")
                PLAN.reset()
                if info is not None and info.best_solution is not None:
                    for n_, x in info.best_solution.items():
                        g = type(W.vars[n_]).__name__
                        if g in GROUPS and depth.get(n_) is not None and np.isfinite(npy(x)).all():
                            C.on_manifold(g, x, depth[n_] + 1, f"op {i} best solution {n_}")
            # every variable, whatever happened
            for v in ov:
                g = type(v).__name__
                if g in GROUPS and depth[v.name] is not None:
                    if float(np.abs(npy(v.tensor)).max()) > 1e11:
                        depth[v.name] = None
                        continue
                    C.on_manifold(g, v.tensor, depth[v.name], f"op {i} {k}, {v.name}")
                if depth[v.name] is None or depth[v.name] > 2000 or (g in GROUPS and float(np.abs(npy(v.tensor)).max()) > 1e8):  # start afresh
                    v.update(wd.rand_inputs(spec, o["s"], names=[v.name])[v.name])
                    depth[v.name] = 1
            for n_, v in W.vars.items():
                if v.dtype != dtype:
                    ctx.violate("wrong-element", f"op {i} {k}: {n_} became {v.dtype}", k=k)
            if ctx.viol:
                return
    finally:
        HOOK.reset()
        PLAN.reset()
    if watch.n >= 3:
        ctx.nontriv = True


# ------------------------------------------------------------------ (c) torchlie tensors and torch optimizers
def left_proj(g, X, G):
    """gradient along the tangent basis: <G, X hat(e_i)>"""
    n = 3
    out = []
    dof = DOF[g]
    for b in range(len(X)):
        M = tomat(g, X[b : b + 1])[0]
        Gb = G[b]
        row = []
        for i in range(dof):
            H = np.zeros((n + 1, n + 1)) if g == "SE3" else np.zeros((n, n))
            e = np.zeros(dof)
            e[i] = 1
            H[:n, :n] = hat3(e[-3:])
            if g == "SE3":
                H[:n, n] = e[:3]
            row.append(float((Gb * (M @ H)[:n]).sum()))
        out.append(row)
    return np.array(out)


def run_opt(case, ctx):
    g, dtype, B = case["g"], wd.DT[case["dtype"]], case["B"]
    L = getattr(lie, g)
    C = Checker(ctx, dtype, part="opt", opt=case["opt"])
    gen_ = torch.Generator().manual_seed(case["s"] % (1 << 31))
    ps = [L.rand(B, dtype=dtype, generator=gen_, requires_grad=True) for _ in range(case["np"])]
    ts = [L.rand(B, dtype=dtype, generator=gen_) for _ in range(case["np"])]
    pts = torch.rand(B, 3, generator=gen_, dtype=dtype)
    vec = torch.rand(4, generator=gen_, dtype=dtype, requires_grad=True)
    name, kw = OPTS[case["opt"]]
    kw = dict(kw, lr=case["lr"])
    if case["foreach"] is not None:
        kw["foreach"] = case["foreach"]
    try:
        opt = getattr(torch.optim, name)(ps + ([vec] if case["loss"] == "mixed" else []), **kw)
    except NotImplementedError:
        if case["opt"] in MUST:
            raise
        return  # refused
    # the same optimizer on plain tensors that see the same gradients: what it wants to add to them
    shadow = [torch.zeros(shape_of(g, B), dtype=dtype, requires_grad=True) for _ in ps]
    sopt = getattr(torch.optim, name)(shadow, **kw)
    sch = torch.optim.lr_scheduler.StepLR(opt, 3, 0.5) if case["sched"] else None
    ctx.state(g, case["dtype"], B, case["opt"], case["loss"])
    depth = [1] * len(ps)
    faults = {int(s): f for s, f in case["faults"]}
    done = 0
    big = 0.0
    follow = case["opt"] in FOLLOW
    for it in range(case["n"]):
        ctx.step()
        opt.zero_grad()
        loss = 0.0
        for p, t in zip(ps, ts):
            if case["loss"] == "local":
                loss = loss + p.local(t).square().sum()
            else:
                loss = loss + (p.transform(pts) - t.transform(pts)).square().sum()
        if case["loss"] == "mixed":
            loss = loss * (1 + vec.square().sum())
        loss.backward()
        old = [npy(p._t) for p in ps]
        grads = [npy(p.grad) if p.grad is not None else None for p in ps]
        lr = opt.param_groups[0]["lr"]
        ids = [id(p) for p in ps]
        failed = False
        want = None
        if follow:
            sopt.param_groups[0]["lr"] = lr
            for q, p in zip(shadow, ps):
                q.data.zero_()
                q.grad = p.grad.as_subclass(torch.Tensor).clone()
            sopt.step()
            want = [npy(q) for q in shadow]
        if it in faults:
            lf = LineFault(1 + int(faults[it] * 60 * len(ps)))
            try:
                with lf:
                    opt.step()
            except SimAllocFailure:
                ctx.fault("alloc_failure_at_line")
                failed = True
            except (NotImplementedError, RuntimeError, KeyError):
                failed = True
        else:
            try:
                opt.step()
            except KeyError:  # the torch optimizer was interrupted while it set up its own state
                return
            except (NotImplementedError, RuntimeError) as e:
                if case["opt"] in MUST:
                    raise
                failed = True
                ctx.ev("refused", str(e)[:60])
        if failed:
            want, follow = None, False
        if sch is not None and not failed:
            sch.step()
        for j, p in enumerate(ps):
            new = npy(p._t)
            if id(p) != ids[j] or p.shape != torch.Size(shape_of(g, B)) or p.dtype != dtype or p.ltype != L or not p.requires_grad or not p.is_leaf:
                ctx.violate("wrong-element", f"step {it}: the tensor changed its kind: {type(p).__name__} {tuple(p.shape)} {p.dtype}", opt=case["opt"])
                return
            big = max(big, lr * float(np.abs(grads[j]).max()) if np.isfinite(grads[j]).all() else math.inf)
            if not np.isfinite(new).all() and big > 1e5:
                return  # diverged: the step itself overflowed
            if np.abs(new).max() > 1e10:
                return
            depth[j] += 1
            C.where["failed"] = failed
            ctx.probe("checked")
            if not C.on_manifold(g, p._t, depth[j], f"step {it} of {case['opt']}"):
                return
            if want is not None:
                d = left_proj(g, old[j], want[j])
                ref = np.stack([m @ mexp(g, r) for m, r in zip(tomat(g, old[j]), d)])
                gn = 1 + float(np.abs(d).max())
                # the gradient itself is rounded: relative to its size and to the size of the coordinates
                tn = 1 + norms(tomat(g, old[j]), g)
                sc = 10 * gn * (1 + float(np.abs(want[j]).max())) * tn
                if not C.equals(g, p._t, ref, f"step {it} of {case['opt']}", sc, sc * tn, C.series(g, d)):
                    return
            done += 1
    if done >= 5:
        ctx.nontriv = True


# ------------------------------------------------------------------ (d) construction
def check_hat(ctx, rng, cls, g, b, how, via, gen_, dtype, what):
    """hat and vee are inverse to each other; what is not in the algebra is refused"""
    if via == "liehat" and g not in ("SO3", "SE3"):
        return
    dof = DOF[g]
    d = torch.randn(b, dof, generator=gen_, dtype=dtype) * rng.choice([1.0, 1e-3, 1e-6])
    L = getattr(lie.functional, g) if via == "liehat" else cls
    h = L.hat(d)
    bad = how not in ("good", "tiny")
    if bad:
        h = h.clone()
        n = h.shape[-1]
        r = rng.randint(0, b - 1)
        val = float(how) if how in ("nan", "inf") else rng.choice([0.3, -0.3, 5.0])
        where = rng.choice(["diag", "skew"] + (["last"] if g in ("SE2", "SE3") else []))
        m = n - 1 if g in ("SE2", "SE3") else n
        i = rng.randint(0, m - 1)
        if where == "diag":
            h[r, i, i] = val
        elif where == "last":
            if g == "SE2":
                h[r, n - 1, n - 1] = val  # the part of the row the library documents as checked
            else:
                h[r, n - 1, rng.randint(0, n - 1)] = val
        else:
            h[r, i, (i + 1) % m] += val
        what = f"{what} ({where})"
    try:
        with lie.functional.enable_checks():
            v = L.vee(h)
    except ValueError:
        ctx.fault("refused_data")
        if not bad:
            ctx.violate("construction", f"{what}: a valid element of the algebra was refused", how=how, via=via, g=g)
        return
    if bad:
        ctx.violate("construction", f"{what}: accepted with checks on", how=how, via=via, g=g)
    elif not wd.close(v, d, dtype):
        ctx.violate("construction", f"{what}: vee(hat(v)) differs from v by {wd.diff(v, d)}", how=how, via=via, g=g)


def run_make(case, ctx):
    dtype = wd.DT[case["dtype"]]
    rng = Rng("make", case["s"])
    C = Checker(ctx, dtype, part="make")
    for it in range(case["n"]):
        ctx.step()
        g = rng.choice(GROUPS)
        cls = getattr(th, g)
        b = rng.choice([1, 2, 4])
        gen_ = torch.Generator().manual_seed(rng.seed_int() % (1 << 31))
        good = cls.rand(b, generator=gen_, dtype=dtype).tensor
        how = rng.choice(["good", "tiny", "off", "far", "scale", "refl", "nan", "inf", "row"])
        via = rng.choice(["tensor", "strict", "lie", "quat", "norm", "liequat", "ctx", "off", "hat", "liehat"])
        sl = slice(2, None) if g == "SE2" else slice(None)
        bad = good.clone()
        noise = torch.rand(good.shape, generator=gen_, dtype=dtype) - 0.5
        rotmask = torch.ones_like(good, dtype=torch.bool)
        if g == "SE2":
            rotmask[:, :2] = False
        if g == "SE3":
            rotmask[:, :, 3] = False
        if how == "tiny":
            bad = torch.where(rotmask, good + noise * (1e-9 if dtype == torch.float64 else 1e-6), good)
        elif how == "off":
            bad = torch.where(rotmask, good + noise * 1e-2, good)
        elif how == "far":
            bad = torch.where(rotmask, good + noise * 0.6, good)
        elif how == "scale":
            bad = torch.where(rotmask, good * rng.choice([0.5, 1.2, 3.0]), good)
        elif how == "refl":
            if g in ("SO2", "SE2"):
                continue
            bad[:, :, 0] = -bad[:, :, 0]
        elif how in ("nan", "inf"):
            m = rotmask.nonzero()
            idx = tuple(m[rng.randint(0, len(m) - 1)].tolist())
            bad[idx] = float(how)
        elif how == "row":  # a single batch entry is invalid
            bad[-1] = torch.where(rotmask[-1], bad[-1] * 1.5, bad[-1])
        keep = bad.clone()
        ctx.state(g, how, via, case["dtype"])
        what = f"{g} from {how} data via {via}"
        valid = how in ("good", "tiny")
        C.where.update(how=how, via=via, g_=g)
        ctx.probe("checked")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if via in ("tensor", "ctx", "strict", "off"):
                try:
                    if via == "off":
                        with th.no_lie_group_check(silent=True):
                            v = cls(tensor=bad)
                        if not wd.same_bits(v.tensor, keep):
                            ctx.violate("construction", f"{what}: without checks the data is taken as it is", how=how, via=via, g=g)
                        continue
                    if via == "ctx":
                        with th.no_lie_group_check(silent=True):
                            with th.enable_lie_group_check():
                                v = cls(tensor=bad)
                    else:
                        v = cls(tensor=bad, strict_checks=via == "strict")
                except (ValueError, RuntimeError):
                    ctx.fault("refused_data")
                    if valid:
                        ctx.violate("construction", f"{what}: valid data refused", how=how, via=via, g=g)
                    elif via != "strict" and how not in ("nan", "inf"):
                        ctx.violate("construction", f"{what}: refused although it can be normalized", how=how, via=via, g=g)
                    continue
                if via == "strict" and not valid:
                    ctx.violate("construction", f"{what}: invalid data accepted by a strict constructor", how=how, via=via, g=g)
                    continue
                if valid and not wd.same_bits(v.tensor, keep):
                    ctx.violate("construction", f"{what}: valid data was altered", how=how, via=via, g=g)
                if not valid:
                    ctx.fault("invalid_data")
                if how in ("nan", "inf"):
                    continue  # nothing sensible to normalize to
                if not valid and not C.on_manifold(g, v.tensor, 1, what):
                    continue
                if not torch.equal(v.tensor[~rotmask], keep[~rotmask]):
                    ctx.violate("construction", f"{what}: the translation was altered", how=how, via=via, g=g)
                if how == "row" and b > 1 and not wd.close(v.tensor[:-1], keep[:-1], dtype):
                    ctx.violate("construction", f"{what}: valid batch entries were altered", how=how, via=via, g=g)
            elif via in ("hat", "liehat"):
                check_hat(ctx, rng, cls, g, b, how, via, gen_, dtype, what)
            elif via == "norm":
                if how in ("nan", "inf"):
                    continue
                z = cls.normalize(bad)
                C.on_manifold(g, z, 1, what)
                if valid and not float((z - keep).abs().max()) < 1e-5:
                    ctx.violate("construction", f"{what}: normalizing moved valid data", how=how, via=via, g=g)
            elif via == "lie":
                if g not in ("SO3", "SE3"):
                    continue
                L = getattr(lie, g)
                try:
                    with lie.functional.enable_checks():
                        p = lie.from_tensor(bad, L)
                except ValueError:
                    ctx.fault("refused_data")
                    if valid:
                        ctx.violate("construction", f"{what}: valid data refused", how=how, via=via, g=g)
                    continue
                if not valid:
                    ctx.violate("construction", f"{what}: invalid data accepted with checks on", how=how, via=via, g=g)
            else:
                if g not in ("SO3", "SE3"):
                    continue
                q = torch.randn(b, 4, generator=gen_, dtype=dtype)
                q = q / q.norm(dim=1, keepdim=True)
                if how in ("off", "far", "scale", "row"):
                    q = q.clone()
                    q[-1] *= rng.choice([0.5, 1.01, 3.0])
                if how in ("nan", "inf"):
                    q[rng.randint(0, b - 1), rng.randint(0, 3)] = float(how)
                bad_q = how in ("off", "far", "scale", "row", "nan", "inf")
                tr = torch.rand(b, 3, generator=gen_, dtype=dtype)
                x = q if g == "SO3" else torch.cat([tr, q], 1)
                if via == "quat":
                    v = th.SO3(quaternion=x) if g == "SO3" else th.SE3(x_y_z_quaternion=x)
                    t = v.tensor
                    refused = False
                else:
                    fn = lie.functional.SO3.quaternion_to_rotation
                    try:
                        with lie.functional.enable_checks():
                            t = fn(q)
                        refused = False
                    except ValueError:
                        refused = True
                        ctx.fault("refused_data")
                    if refused != bad_q:
                        ctx.violate("construction", f"{what}: quaternions of norm {q.norm(dim=1).tolist()} were {'refused' if refused else 'accepted'} with checks on", how=how, via=via, g=g)
                    if refused:
                        continue
                if how in ("nan", "inf"):
                    continue
                gg = "SO3" if via == "liequat" else g
                C.on_manifold(gg, t, 1, what)
                if gg == "SE3" and not wd.same_bits(t[:, :, 3], tr):
                    ctx.violate("construction", f"{what}: the translation was altered", how=how, via=via, g=g)
    ctx.nontriv = True


def run(case, ctx):
    {"geom": run_geom, "obj": run_obj, "opt": run_opt, "make": run_make}[case["kind"]](case, ctx)


def shrink(case):
    if case["kind"] == "obj":
        yield from ly.shrink(case)
    if case["kind"] in ("geom", "obj"):
        for o in range(len(case["ops"])):
            if case["ops"][o].get("f") is not None:
                c = dict(case)
                c["ops"] = [dict(x) for x in case["ops"]]
                c["ops"][o]["f"] = None
                yield c
    if case["kind"] in ("opt", "make") and case["n"] > 1:
        yield dict(case, n=case["n"] // 2)
        yield dict(case, n=case["n"] - 1)
    if case.get("B", 1) > 1:
        yield dict(case, B=1)
