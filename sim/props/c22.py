"""C22 - process-wide numeric options: what was accepted last is in force, everywhere, and nothing else."""
import os
import pickle
import warnings

import numpy as np
import torch
import theseus as th
import torchlie
import torchlie.functional as tlf
from theseus.global_params import _THESEUS_GLOBAL_PARAMS as TGP

from .. import hist, world as wd
from . import c13

RUNS = {"quick": 420, "thorough": 20000}
RULE = ("a run is a history of 3-12 calls: set_global_params of either package (one or several options), refused sets (an unknown or the other package's option "
        "at any position), resets (some interrupted and repeated), and work in between (3D/2D group operations with their derivatives near every threshold, "
        "input checks, and a vectorized objective that is updated, converted and linearized); every piece of work is compared with the same work done in a "
        "process that forked off before the history and was given the options a reference model says are in force; non-trivial if work follows an option change")
REAL = ["theseus.set_global_params, theseus.global_params", "torchlie.set_global_params / reset_global_params", "torchlie.functional SO3/SE3", "SO2, SE2, SO3, SE3, Local, Objective, Vectorize"]
STUB = ["user cost functions", "interruptions (raised between source lines of the library)"]
ASSUMPTIONS = ["theseus has no public reset; the reset() of its options object is used", "option values are accepted unchecked, so unreasonable tolerances are legal"]

EPS = [0.0, 1e-12, 1e-7, 1e-3, 0.05, 0.5, 100.0]
TH = ["so2_norm", "so2_matrix", "se2_near_zero", "se2_d_near_zero", "so3_to_quaternion_sqrt"]
TL = ["so3_near_pi", "so3_near_zero", "so3_d_near_zero", "so3_matrix", "so3_quat", "so3_hat", "se3_hat"]
BAD = ["so3_near_zero_eps", "no_such_option", "so2_norm_eps", "se3_near_zero_eps_float64"]
SHIPPED = {
    "th": dict(so2_norm=(1e-12, 1e-12), so2_matrix=(1e-5, 4e-7), se2_near_zero=(3e-2, 1e-6), se2_d_near_zero=(1e-1, 1e-3), so3_to_quaternion_sqrt=(1e-6, 1e-6)),
    "tl": dict(so3_near_pi=(1e-2, 1e-7), so3_near_zero=(1e-2, 5e-3), so3_d_near_zero=(2e-1, 1e-2), so3_matrix=(4e-4, 1e-6), so3_quat=(2e-4, 5e-7),
               so3_hat=(5e-6, 5e-7), se3_hat=(5e-6, 5e-7)),
}


def shipped(lib):
    out = {}
    for k, (a, b) in SHIPPED[lib].items():
        out[k + "_eps_float32"], out[k + "_eps_float64"] = a, b
    if lib == "th":
        out["fast_approx_local_jacobians"] = False
    else:
        out["_allow_passthrough_ops"] = out["_faster_log_maps"] = False
    return out


def gen_opts(rng, lib):
    o = {}
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.p(0.3):
            k = "fast_approx_local_jacobians" if lib == "th" else rng.choice(["_allow_passthrough_ops", "_faster_log_maps"])
            o[k] = rng.p(0.75)
        else:
            o[rng.choice(TH if lib == "th" else TL) + "_eps_" + rng.choice(["float32", "float64"])] = rng.choice(EPS)
    return o


def gen(rng, tier, i):
    spec = wd.gen_spec(rng, nv=(1, 3), nextra=(0, 3), prior_all=True, robust=0.15, embodied=rng.p(0.3), types=["Vector", "Point2", "SO2", "SE2", "SO3", "SE3"])
    ops = []
    dt, b = spec["dtype"], spec["B"]
    for _ in range(rng.randint(3, 12)):
        lib = rng.choice(["th", "tl"])
        k = rng.wchoice([("set", 5), ("refused", 2), ("reset", 1.5), ("ireset", 0.7), ("probe", 3), ("work", 4)])
        if k == "set":
            ops.append(dict(k=k, lib=lib, o=list(gen_opts(rng, lib).items())))
        elif k == "refused":
            o = list(gen_opts(rng, lib).items())
            bad = rng.choice(BAD) if rng.p(0.6) else rng.choice(list(shipped("tl" if lib == "th" else "th")))
            o.insert(rng.randint(0, len(o)), (bad, 0.5))
            ops.append(dict(k=k, lib=lib, o=o))
        elif k in ("reset", "ireset"):
            ops.append(dict(k=k, lib=lib, at=rng.randint(1, 14)))
        elif k == "probe":
            ops.append(dict(k=k, s=rng.seed_int(), dt=rng.choice(["float32", "float64"]), b=rng.choice([1, 3, 6])))
        else:
            if rng.p(0.25):
                dt = rng.choice(["float32", "float64"])
            if rng.p(0.25) and b != 1:
                b = rng.choice([2, 3, 4, spec["B"]])
            ops.append(dict(k=k, s=rng.seed_int(), dt=dt, b=b, copy=rng.p(0.15)))
    for j in (rng.randint(0, len(ops)), len(ops)):
        ops.insert(j, dict(k="probe", s=rng.seed_int(), dt=rng.choice(["float32", "float64"]), b=4))
    return dict(spec=spec, ops=ops)


# ------------------------------------------------------------------ reference processes
def forked(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except Exception as e:  # noqa
                out = ("err", f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        d = f.read()
    os.waitpid(pid, 0)
    k, v = pickle.loads(d)
    if k == "err":
        raise RuntimeError("reference: " + v)
    return v


def apply_model(m):
    for k, v in m["th"].items():
        setattr(TGP, k, v)
    g = torchlie.global_params._TORCHLIE_GLOBAL_PARAMS
    for k, v in m["tl"].items():
        setattr(g, k, v)


# ------------------------------------------------------------------ the work
def tangents(op, n):
    rs = np.random.RandomState(op["s"] % (2**31))
    v = rs.randn(op["b"], n)
    ang = [0.0, 1e-13, 1e-9, 1e-6, 3e-4, 4e-3, 8e-3, 0.04, 0.08, 0.15, 0.4, 1.3, 3.0, np.pi - 0.05, np.pi - 1e-4, np.pi - 1e-8]
    sc = np.array([ang[rs.randint(len(ang))] for _ in range(op["b"])])
    return v / np.linalg.norm(v, axis=1, keepdims=True) * sc[:, None], sc


def rec(out, name, f):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = f()
    except (ValueError, RuntimeError, NotImplementedError) as e:
        out.append((name, type(e).__name__))
        return
    r = r if isinstance(r, (list, tuple)) else [r]
    out.append((name, [x.detach().numpy().copy() if isinstance(x, torch.Tensor) else x for x in r]))


def with_grad(f, x):
    x = x.clone().requires_grad_(True)
    y = f(x)
    g = torch.Generator().manual_seed(5)
    (y * torch.rand(y.shape, generator=g, dtype=y.dtype)).sum().backward()
    return [y.detach(), x.grad]


def probe(op):
    dt = wd.DT[op["dt"]]
    out = []
    v3, sc = tangents(op, 3)
    w = torch.from_numpy(v3).to(dt)
    rs = np.random.RandomState((op["s"] + 1) % (2**31))
    u6 = torch.cat([torch.from_numpy(rs.randn(op["b"], 3)).to(dt), w], 1)
    R = torch.from_numpy(np.stack([wd._rot(x) for x in v3])).to(dt)
    T = torch.cat([R, u6[:, :3, None]], 2)

    def jac(G, name, x):
        js = []
        y = getattr(G, name)(x, jacobians=js)
        return [y] + js

    def passed(G, name, x):
        return with_grad(lambda x: getattr(G, name)(x, jacobians=[]), x)

    for gn, name, x in (("SO3", "exp", w), ("SE3", "exp", u6), ("SO3", "log", R), ("SE3", "log", T)):
        G = getattr(tlf, gn)
        rec(out, (gn, name), lambda: jac(G, name, x))
        rec(out, (gn, name, "grad"), lambda: with_grad(getattr(G, name), x))
        rec(out, (gn, name, "pass"), lambda: passed(G, name, x))
    # checks of the 3D groups with inputs off by a little
    e = [1e-9, 1e-6, 1e-4, 1e-2][rs.randint(4)]
    with tlf.enable_checks():
        rec(out, ("SO3", "check"), lambda: tlf.SO3.check_group_tensor(R * (1 + e)) or 1)
        rec(out, ("SE3", "check"), lambda: tlf.SE3.check_group_tensor(T * (1 + e)) or 1)
        rec(out, ("SO3", "hat"), lambda: tlf.SO3.check_hat_tensor(tlf.SO3.hat(w) + e) or 1)
        h = tlf.SE3.hat(u6)
        h = h.clone()
        h[..., :3, :3] += e
        rec(out, ("SE3", "hat"), lambda: tlf.SE3.check_hat_tensor(h) or 1)
        q = torch.nn.functional.normalize(torch.from_numpy(rs.randn(op["b"], 4)).to(dt), dim=1)
        rec(out, ("SO3", "quat"), lambda: tlf.SO3.check_unit_quaternion(q * (1 + e)) or 1)
    # 2D groups and the classes of theseus
    small = [0.0, 1e-14, 1e-9, 1e-4, 0.02, 0.3, 1.0]
    s2 = torch.from_numpy(rs.randn(op["b"], 2) * np.array([[small[rs.randint(len(small))]] for _ in range(op["b"])])).to(dt)
    rec(out, ("SO2", "normalize"), lambda: th.SO2.normalize(s2))
    ang = torch.from_numpy(sc[:, None]).to(dt)
    cs = torch.cat([ang.cos(), ang.sin()], 1)
    rec(out, ("SO2", "check"), lambda: th.SO2._check_tensor(cs * (1 + e)) or 1)
    u3 = torch.cat([torch.from_numpy(rs.randn(op["b"], 2)).to(dt), ang], 1)
    x4 = torch.cat([u3[:, :2], cs], 1)

    def se2exp():
        js = []
        return [th.SE2.exp_map(u3, jacobians=js).tensor] + js

    def se2log():
        js = []
        return [th.SE2(tensor=x4).log_map(jacobians=js)] + js

    rec(out, ("SE2", "exp"), se2exp)
    rec(out, ("SE2", "log"), se2log)
    rec(out, ("SE2", "log", "grad"), lambda: with_grad(lambda x: th.SE2(tensor=x, disable_checks=True).log_map(), x4))
    with th.no_lie_group_check(silent=True):
        p = th.SO3(tensor=R)
    rec(out, ("SO3", "to_quaternion"), lambda: p.to_quaternion())
    return out


def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False


def expect(op, m):
    """what the options in force mean, stated independently of the code: pairs (what, expected, got)"""
    dt = wd.DT[op["dt"]]
    rs = np.random.RandomState((op["s"] + 2) % (2**31))
    slack = 3e-6 if op["dt"] == "float32" else 1e-12

    def eps(k):
        lib = "th" if k in TH else "tl"
        return m[lib][f"{k}_eps_{op['dt']}"]

    out = []

    def tol(k, dev, f):
        if abs(dev - eps(k)) > 0.01 * eps(k) + slack:
            out.append((k, bool(dev > eps(k)), raises(f)))

    e = [0.0, 1e-4, 1e-2, 0.2, 2.0][rs.randint(5)]
    w = torch.from_numpy(rs.randn(op["b"], 3)).to(dt)
    R = torch.from_numpy(np.stack([wd._rot(x) for x in rs.randn(op["b"], 3)]) * (1 + e)).to(dt)
    r = R.double().numpy()
    dev = max(np.abs(r @ r.transpose(0, 2, 1) - np.eye(3)).max(), np.abs(np.linalg.det(r) - 1).max())
    q = torch.nn.functional.normalize(torch.from_numpy(rs.randn(op["b"], 4)), dim=1).mul(1 + e).to(dt)
    h = tlf.SO3.hat(w) + e
    h6 = tlf.SE3.hat(torch.cat([w, w], 1)).clone()
    h6[..., 3, 1] += e
    with tlf.enable_checks():
        tol("so3_matrix", dev, lambda: tlf.SO3.check_group_tensor(R))
        tol("so3_quat", e, lambda: tlf.SO3.check_unit_quaternion(q))
        tol("so3_hat", 2 * e, lambda: tlf.SO3.check_hat_tensor(h))
        tol("se3_hat", e, lambda: tlf.SE3.check_hat_tensor(h6))
    a = torch.from_numpy(rs.randn(op["b"], 1))
    cs = (torch.cat([a.cos(), a.sin()], 1) * (1 + e)).to(dt)
    with th.enable_lie_group_check():
        tol("so2_matrix", e, lambda: th.SO2(tensor=cs, strict_checks=True))
    s2 = cs / (1 + e) * [1e-10, 1e-2, 0.3, 3.0][rs.randint(4)]
    n = float(s2.double().norm(dim=1)[0])
    if abs(n - eps("so2_norm")) > 0.01 * eps("so2_norm"):
        one = torch.tensor([[1.0, 0.0]], dtype=dt).expand(op["b"], 2)
        out.append(("so2_norm", bool(n < eps("so2_norm")), bool(torch.allclose(th.SO2.normalize(s2), one, atol=1e-4))))
    # branches near zero are truncated series: visibly wrong at 1.3 rad, exact otherwise
    u = torch.nn.functional.normalize(torch.from_numpy(rs.randn(op["b"], 3)), dim=1).mul(1.3)
    X = np.stack([wd._rot(x) for x in u.numpy()])
    d = np.abs(tlf.SO3.exp(u.to(dt)).double().numpy() - X).max()
    out.append(("so3_near_zero", bool(1.3 < eps("so3_near_zero")), bool(d > 1e-3)))
    js = []
    tlf.SO3.log(torch.from_numpy(X).to(dt), jacobians=js)
    ok = torch.linalg.inv(jexp(u))
    if eps("so3_near_zero") < 1.3 and eps("so3_near_pi") < 1:
        d = (js[0].double() - ok).abs().max()
        out.append(("so3_d_near_zero", bool(1.3 < eps("so3_d_near_zero")), bool(d > 2e-4)))
    t = torch.from_numpy(np.array([[0.3, -0.7, 1.3]])).to(dt)
    g = th.SE2.exp_map(t)
    t2 = t.double()[0]
    V = torch.tensor([[np.sin(1.3), -(1 - np.cos(1.3))], [1 - np.cos(1.3), np.sin(1.3)]]) / 1.3
    d = (g.tensor[0, :2].double() - V @ t2[:2]).abs().max()
    out.append(("se2_near_zero", bool(1.3 < eps("se2_near_zero")), bool(d > 1e-3)))
    with th.no_lie_group_check(silent=True):
        loc = th.Local(th.SO3(tensor=torch.from_numpy(X).to(dt), name="l1"), th.SO3(tensor=torch.eye(3, dtype=dt)[None], name="l2"), th.ScaleCostWeight(1.0))
    J = loc.jacobians()[0][0]
    if eps("so3_d_near_zero") < 1.3:
        out.append(("fast_approx_local_jacobians", m["th"]["fast_approx_local_jacobians"], bool(((J - torch.eye(3, dtype=dt)).abs() < 1e-6).all())))
    return out


def jexp(u):
    """right jacobian of SO3 exp"""
    th_ = u.norm(dim=1).view(-1, 1, 1)
    K = tlf.SO3.hat(u)
    return torch.eye(3, dtype=u.dtype) - (1 - th_.cos()) / th_**2 * K + (th_ - th_.sin()) / th_**3 * K @ K


def inputs_of(case, op):
    t = wd.rand_inputs(case["spec"], op["s"], b=op["b"])
    return {n: x.to(wd.DT[op["dt"]]) for n, x in t.items()}


def ref_work(case, op):
    W = wd.build(case["spec"], tensors=inputs_of(case, op), dtype=op["dt"])
    W.obj.update()
    A, b = hist.linearize(W.obj, names=W.optim)
    e = W.obj.error_metric()
    return [x.detach().numpy() for x in (A, b, e)]


# ------------------------------------------------------------------ run
def model_after(ops):
    m = dict(th=shipped("th"), tl=shipped("tl"))
    for op in ops:
        if op["k"] == "set":
            m[op["lib"]].update(dict(op["o"]))
        elif op["k"] in ("reset", "ireset"):
            m[op["lib"]] = shipped(op["lib"])
    return m


def reset(lib):
    if lib == "tl":
        torchlie.reset_global_params()
    else:
        TGP.reset()


def run(case, ctx):
    ops = case["ops"]
    refs = {}
    for j, op in enumerate(ops):
        if op["k"] in ("probe", "work"):
            m = model_after(ops[:j])

            def go():
                apply_model(m)
                return probe(op) if op["k"] == "probe" else ref_work(case, op)

            refs[j] = forked(go)
    W = wd.build(case["spec"], vectorize=True)
    obj, names = W.obj, W.optim
    cur = case["spec"]["dtype"]
    changed = False
    for j, op in enumerate(ops):
        ctx.step()
        ctx.state(op["k"], op.get("lib"), [k for k, _ in op.get("o", [])], op.get("dt"))
        if op["k"] in ("set", "refused"):
            f = th.set_global_params if op["lib"] == "th" else torchlie.set_global_params
            err = None
            try:
                f(dict(op["o"]))
            except (ValueError, RuntimeError) as e:
                err = e
            if op["k"] == "refused":
                ctx.fault("refused_options")
            if not ctx.check((err is not None) == (op["k"] == "refused"), "acceptance", lambda: f"{op}: {err!r}", op=op["k"], lib=op["lib"]):
                return
            changed = True
        elif op["k"] == "reset":
            reset(op["lib"])
        elif op["k"] == "ireset":
            lf = c13.LineFault(op["at"])
            try:
                with lf:
                    reset(op["lib"])
            except RuntimeError:
                pass
            if lf.fired:
                ctx.fault("interrupted_reset")
            reset(op["lib"])
        elif op["k"] == "probe":
            got = probe(op)
            ctx.ev(j, got)
            ctx.nontriv |= changed
            for what, want, have in expect(op, model_after(ops[:j])):
                ctx.probe("option_effect_checked")
                if not ctx.check(want == have, "option-without-effect", lambda: f"call {j}: {what} ({op['dt']}): expected {want}, got {have}", op=what):
                    return
            m = model_after(ops[:j])
            now = dict(th=TGP, tl=torchlie.global_params._TORCHLIE_GLOBAL_PARAMS)
            for lib in m:
                for n, want in m[lib].items():
                    have = getattr(now[lib], n, want)
                    if not ctx.check(type(have) is type(want) and have == want or have == want != 0, "option-value", lambda: f"call {j}: {lib} {n} is {have}, expected {want}", op=n):
                        return
            for (n1, a), (n2, b) in zip(got, refs[j]):
                same = type(a) is type(b) and (a == b if isinstance(a, str) else len(a) == len(b) and all(
                    (x.tobytes() == y.tobytes() and x.dtype == y.dtype) if isinstance(x, np.ndarray) else x == y for x, y in zip(a, b)))
                if not ctx.check(same, "stale-option", lambda: f"call {j}: {n1} {op['dt']} differs from a process given the options in force: {a} vs {b}", op="/".join(n1)):
                    return
        else:
            if op["copy"]:
                obj = obj.copy()
                th.Vectorize(obj)
                ctx.probe("objective_copied")
            if op["dt"] != cur:
                obj.to(dtype=wd.DT[op["dt"]])
                cur = op["dt"]
                ctx.probe("dtype_converted")
            with th.no_lie_group_check(silent=True):
                obj.update(inputs_of(case, op))
            A, b = hist.linearize(obj, names=names)
            e = obj.error_metric()
            ctx.ev(j, A, b, e)
            ctx.nontriv |= changed
            for what, x, y in zip(("A", "b", "error_metric"), (A, b, e), refs[j]):
                y = torch.from_numpy(y)
                if not ctx.check(wd.close(x, y, k=50), "stale-option", lambda: f"call {j}: {what} of the objective differs from a fresh one under the options in force: {wd.diff(x, y)}", op="work/" + what):
                    return


def shrink(case):
    for i in range(len(case["ops"]) - 1, -1, -1):
        c = dict(case)
        c["ops"] = case["ops"][:i] + case["ops"][i + 1:]
        if c["ops"]:
            yield c
    for i, op in enumerate(case["ops"]):
        for q in range(len(op.get("o", []))):
            if len(op["o"]) > 1 and op["k"] == "set":
                c = dict(case)
                c["ops"] = [dict(x) for x in case["ops"]]
                c["ops"][i]["o"] = op["o"][:q] + op["o"][q + 1:]
                yield c
    for s in wd.shrink_spec(case["spec"]):
        c = dict(case)
        c["spec"] = s
        yield c
