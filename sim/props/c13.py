"""C13 - randomness comes only from the generator supplied; global-generator components are a function of the seed."""
import json
import random
import sys

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode

from .. import sched
from ..core import SIM_FAULTS, Rng, SimAllocFailure, SimInterrupt, SimUserError, StepBudget

sched.patch_locks()

import theseus as th  # noqa
import torchlie as lie  # noqa
from theseus import utils as thutils  # noqa
from .. import layers as ly, progs, world as wd  # noqa
from ..faults import HOOK, PLAN, OpFault, EXC  # noqa

RUNS = {"quick": 700, "thorough": 40000}
RULE = ("a run is either a sequence of random constructions with own generators, executed clean and again with the global torch/numpy/python "
        "streams perturbed between and during the draws, with failures inside a draw, and in simulated threads next to others; or a history of "
        "stochastic components on the global stream, re-run with the same seed after other calls and failures; non-trivial if at least one "
        "perturbed or repeated execution was compared")
REAL = ["theseus, torchlie (all group types), sparse matrix generators, pose graph generator, DCEM, compute_samples, verify_jacobians"]
STUB = ["global random streams (perturbed at every tensor operation)", "thread scheduling", "user cost functions", "tensor allocator"]
ASSUMPTIONS = ["on CPU: one torch stream per generator"]

GROUPS = {"Vector": 3, "Point2": 2, "Point3": 3, "SO2": 1, "SE2": 3, "SO3": 3, "SE3": 6}
GK = ["th", "th", "th", "tlf", "tlt", "sbin", "smat", "split"]  # "pg" has runs of its own (KF3)


def prepare():
    sched.import_all()


# ------------------------------------------------------------------ generation
def gen_op(rng, k=None):
    k = k or rng.choice(GK)
    o = dict(k=k, s=rng.seed_int())
    if k == "th":
        o.update(g=rng.choice(list(GROUPS)), m=rng.choice(["rand", "randn"]), n=rng.choice([1, 2, 3, 7]), d=rng.choice([1, 2, 5]),
                 dt=rng.choice([None, "float32", "float64"]), rg=rng.p(0.25))
    elif k in ("tlf", "tlt"):
        o.update(g=rng.choice(["SO3", "SE3"]), m=rng.choice(["rand", "randn"]), sz=rng.choice([[1], [3], [2, 2], [], [1, 3, 2]]),
                 dt=rng.choice([None, "float32", "float64"]), rg=rng.p(0.25))
    elif k == "pg":
        o.update(n=rng.choice([2, 4, 7]), b=rng.choice([1, 2]), dt=rng.choice(["float32", "float64"]), lc=rng.choice([0.2, 1.0]), out=rng.choice([0.05, 0.5]))
    else:
        o.update(r=rng.choice([1, 2, 5, 9]), c=rng.choice([1, 3, 6]), fill=rng.choice([0.0, 0.2, 0.6]), m=rng.choice([0, 1, 3]), b=rng.choice([1, 3]))
    return o


def gen_glob(rng):
    k = rng.choice(["dcem", "samples", "jac", "jac", "ba", "pgg"])
    o = dict(k=k, s=rng.seed_int())
    if k in ("dcem", "samples", "jac"):
        for _ in range(20):
            o["spec"] = wd.gen_spec(rng, nv=(1, 3), nextra=(0, 4), maxc=5, zero=0)
            if k == "jac" or all(v["t"] in ("Vector", "Point2", "Point3") for v in o["spec"]["vars"] if v["role"] == "o"):
                break
        else:
            return gen_glob(rng)
        o["cfg"] = ly.gen_cfg(rng, algs=["dcem"] if k == "dcem" else ["gn"], solvers=["chol"])
        o["call"] = ly.gen_call(rng, o["spec"], o["cfg"], modes=["unroll"])
        o["ns"] = rng.choice([1, 4])
        o["temp"] = rng.choice([1.0, 0.3])
        o["nc"] = rng.choice([1, 2])
    o["hist"] = [rng.choice(["same-other-seed", "draw", "fail", "fail", "fail-user", "other-inputs"]) for _ in range(rng.randint(1, 3))]
    o["at"] = round(rng.random(), 4)
    return o


def gen(rng, tier, i):
    x = rng.random()
    if x < 0.02:
        return dict(k="serial", ops=[gen_op(rng, "pg")], gs=rng.seed_int(), ps=rng.seed_int(), dd="float32", share=True)
    if x < 0.45:
        return dict(k="serial", ops=[gen_op(rng) for _ in range(rng.randint(1, 5))], gs=rng.seed_int(), ps=rng.seed_int(),
                    dd=rng.choice(["float32", "float32", "float64"]), share=rng.p(0.6))
    if x < 0.8:
        return dict(k="glob", g=gen_glob(rng), ps=rng.seed_int(), dd="float32")
    ths = [dict(k="gen", ops=[gen_op(rng) for _ in range(rng.randint(1, 4))], gs=rng.seed_int()) for _ in range(rng.choice([1, 2]))]
    if rng.p(0.5):
        ths.append(dict(k="glob", g=gen_glob(rng)))
    else:
        ths.append(dict(k="noise", n=rng.randint(3, 25), s=rng.seed_int()))
    rng.shuffle(ths)
    return dict(k="threads", threads=ths, sseed=rng.seed_int(), q=rng.choice([1, 3, 10, 50]), hot=rng.choice([0, 0.05, 0.3]))


# ------------------------------------------------------------------ random constructions
def ts(x):
    if isinstance(x, th.Variable):
        return x.tensor.detach()
    if isinstance(x, lie.LieTensor):
        return x._t.detach()
    return x.detach() if isinstance(x, torch.Tensor) else x


def do_op(o, g):
    """list of observations (tensors, python values)"""
    k = o["k"]
    dt = wd.DT[o["dt"]] if o.get("dt") else None
    if k == "th":
        C = getattr(th, o["g"])
        size = (o["n"], o["d"]) if o["g"] == "Vector" else (o["n"],)
        x = getattr(C, o["m"])(*size, generator=g, dtype=dt, requires_grad=o["rg"])
        return [ts(x), bool(x.tensor.requires_grad)]
    if k == "tlf":
        return [ts(getattr(getattr(lie.functional, o["g"]), o["m"])(*o["sz"], generator=g, dtype=dt, requires_grad=o["rg"]))]
    if k == "tlt":
        return [ts(getattr(getattr(lie, o["g"]), o["m"])(*o["sz"], generator=g, dtype=dt, requires_grad=o["rg"]))]
    if k == "pg":
        from theseus.utils.examples import PoseGraphDataset

        D, inl = PoseGraphDataset.generate_synthetic_3D(o["n"], loop_closure_ratio=o["lc"], loop_closure_outlier_ratio=o["out"], dataset_size=o["b"],
                                                        generator=g, dtype=dt, max_num_loop_closures=3)
        return [[int(b) for b in inl]] + obs_pg(D)
    if k == "sbin":
        m = thutils.random_sparse_binary_matrix(o["r"], o["c"], o["fill"], o["m"], g)
        return [m.indptr.tolist(), m.indices.tolist(), m.data.tolist()]
    if k == "smat":
        a, b, c, m = thutils.random_sparse_matrix(o["b"], o["r"], o["c"], o["fill"], o["m"], g, "cpu")
        return [a, b, c, m.indices.tolist()]
    if k == "split":
        return [thutils.split_into_param_sizes(3 + 2 * o["r"], 1, 4, g)]


def obs_pg(D):
    return ([p.tensor for p in D.poses] + [p.tensor for p in D.gt_poses] + [[int(e.i), int(e.j)] for e in D.edges]
            + [e.relative_pose.tensor for e in D.edges])


def eq(a, b):
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        return isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and a.dtype == b.dtype and wd.same_bits(a, b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b


def near(a, b):
    """equal up to rounding (kernels may be chosen differently under a dispatch mode); a leaked random stream is never that close"""
    if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor):
        return a.dtype == b.dtype and a.shape == b.shape and torch.allclose(a, b, rtol=1e-4 if a.dtype == torch.float32 else 1e-9,
                                                                           atol=1e-4 if a.dtype == torch.float32 else 1e-9)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return a == b


def gstate():
    return torch.get_rng_state(), np.random.get_state(), random.getstate()


def same_gstate(a, b):
    return (bool((a[0] == b[0]).all()) and a[1][0] == b[1][0] and bool((a[1][1] == b[1][1]).all()) and a[1][2:] == b[1][2:] and a[2] == b[2])


def perturb(rng):
    w = rng.randrange(6)
    if w == 0:
        torch.manual_seed(rng.seed_int())
    elif w == 1:
        np.random.seed(rng.seed_int() % (1 << 31))
        random.seed(rng.seed_int())
    else:
        torch.rand(rng.randint(1, 3))
        torch.randn(rng.choice([1, 17]))
        np.random.rand()
        random.random()


class Perturb(TorchDispatchMode):
    """the global streams move before every tensor operation"""

    def __init__(self, rng):
        super().__init__()
        self.rng = rng
        self.n = 0

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        self.n += 1
        perturb(self.rng)
        with torch._C.DisableTorchFunctionSubclass():  # the operator itself, also on tensor subclasses
            return func(*args, **(kwargs or {}))


class Lines:
    """calls fn before every source line of the library (for tensor subclasses, which a dispatch mode cannot wrap)"""

    def __init__(self, fn):
        self.fn = fn
        self.n = 0

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            sys.settrace(None)
            try:
                self.fn(self.n)
            finally:
                sys.settrace(self._glob)
        return self._local

    def _glob(self, frame, event, arg):
        return self._local if sched._kind(frame.f_code.co_filename) else None

    def __enter__(self):
        sys.settrace(self._glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


class LineFault(Lines):
    def __init__(self, at):
        super().__init__(self.hit)
        self.at = at
        self.fired = False

    def hit(self, n):
        if n == self.at:
            self.fired = True
            raise SimAllocFailure(f"[sim] allocation failure at source line {n}")


def reseed(s):
    torch.manual_seed(s % (1 << 31))
    np.random.seed(s % (1 << 31))
    random.seed(s)


def run_serial(case, ctx):
    rng = Rng("perturb", case["ps"])
    ops = case["ops"]

    def gens():
        if case["share"]:
            g = torch.Generator().manual_seed(case["gs"])
            return [g] * len(ops)
        return [torch.Generator().manual_seed(o["s"]) for o in ops]

    # clean
    ref, states = [], []
    reseed(case["ps"])
    g0 = gstate()
    for o, g in zip(ops, gens()):
        before = g.get_state()
        ref.append(do_op(o, g))
        ctx.step()
        after = g.get_state()
        states.append(after)
        ctx.state(o["k"], o.get("g"), o.get("m"))
        if not same_gstate(g0, gstate()):
            ctx.violate("global-state-touched", f"{name(o)} with a generator moved the global random state", k=o["k"])
            g0 = gstate()
        if bool((before == after).all()) and not (o["k"] in ("split", "sbin", "pg")):
            ctx.violate("generator-unused", f"{name(o)} drew nothing from its generator", k=o["k"])
    ctx.ev(ref)
    # other seeds give other values (continuous draws)
    o = ops[0]
    if o["k"] in ("th", "tlf", "tlt"):
        alt = do_op(o, torch.Generator().manual_seed((case["gs"] if case["share"] else o["s"]) + 1))
        if near(alt, ref[0]):
            ctx.violate("generator-ignored", f"{name(o)} gives the same value for different generator seeds", k=o["k"])
    # perturbed between and during
    gs = gens()
    saved = []
    for i, (o, g) in enumerate(zip(ops, gs)):
        perturb(rng)
        start = g.get_state()
        saved.append(start)
        with (Lines(lambda n: perturb(rng)) if o["k"] == "tlt" else Perturb(rng)) as m:
            got = do_op(o, g)
        ctx.step()
        ctx.fault("global_stream_moved", m.n + 1)
        if not near(got, ref[i]):
            ctx.violate("depends-on-global", f"{name(o)}: same generator state, different result when the global random state moves", k=o["k"])
        elif not bool((g.get_state() == states[i]).all()):
            ctx.violate("depends-on-global", f"{name(o)}: generator state after the call depends on the global random state", k=o["k"])
        ctx.nontriv = True
    # failure inside a draw, then the same draw again from the same generator state
    for i, o in enumerate(ops):
        g = torch.Generator()
        g.set_state(saved[i])
        F = LineFault if o["k"] == "tlt" else OpFault
        c = F(0)
        with c:
            do_op(o, g)
        at = 1 + rng.randrange(max(1, c.n))
        g.set_state(saved[i])
        s0 = gstate()
        f = F(at)
        try:
            with f:
                do_op(o, g)
        except RuntimeError:
            if not f.fired:
                raise
        if f.fired:
            ctx.fault("alloc_failure_in_draw")
            if not same_gstate(s0, gstate()):
                ctx.violate("global-state-touched", f"{name(o)} failing at tensor op {at} moved the global random state", k=o["k"])
            g.set_state(saved[i])
            got = do_op(o, g)
            if not near(got, ref[i]):
                ctx.violate("differs-after-failure", f"{name(o)} differs when repeated from the same generator state after a failure", k=o["k"])


def name(o):
    return " ".join(str(o[k]) for k in ("k", "g", "m", "n", "sz", "dt", "rg") if k in o)


# ------------------------------------------------------------------ components on the global stream
class Glob:
    """one stochastic component with persistent state (layer, cost functions)"""

    def __init__(self, o):
        self.o = o
        if "spec" in o:
            self.W = ly.build(o["spec"], o["cfg"])

    def __call__(self, inp_seed=None):
        o = self.o
        k = o["k"]
        if k in ("dcem", "samples"):
            c = o["call"] if inp_seed is None else dict(o["call"], s=inp_seed)
            c = dict(c, rg=[])
            with torch.no_grad():
                _, vals, info = ly.run(self.W, c, grad=False)
            out = [vals[n] for n in sorted(vals)]
            if k == "samples":
                try:
                    out.append(self.W.layer.compute_samples(self.W.opt.linear_solver, o["ns"], o["temp"]))
                except RuntimeError as e:
                    if "positive" not in str(e) and "Cholesky" not in str(e):
                        raise
                    out.append("singular")
            return out
        if k == "jac":
            seen = []
            HOOK.observer = lambda site: seen.append(site)
            self.W.obj.update(wd.rand_inputs(o["spec"], o["call"]["s"] if inp_seed is None else inp_seed, names=list(self.W.vars)))
            rec = []
            orig = th.Variable.update
            try:
                try:
                    self.W.layer.verify_jacobians(num_checks=o["nc"], tol=1e-3)
                    rec.append("ok")
                except RuntimeError as e:
                    if "appears incorrect" not in str(e):
                        raise
                    rec.append(str(e))
            finally:
                HOOK.observer = None
                th.Variable.update = orig
            return rec + seen + [self.W.vars[n].tensor.clone() for n in sorted(self.W.vars)]
        if k == "ba":
            from theseus.utils.examples import BundleAdjustmentDataset

            D = BundleAdjustmentDataset.generate_synthetic(2 + o["s"] % 2, 6, 3)
            return [p.tensor for p in D.points] + [c.pose.tensor for c in D.cameras] + [x.image_feature_point.tensor for x in D.observations]
        if k == "pgg":
            from theseus.utils.examples import PoseGraphDataset

            D, inl = PoseGraphDataset.generate_synthetic_3D(3 + o["s"] % 4, dtype=torch.float64, loop_closure_ratio=0.5)
            return [[int(b) for b in inl]] + obs_pg(D)


OKF = SIM_FAULTS + (RuntimeError, ValueError)


def seeded(G, seed, **kw):
    """(outcome, global torch state afterwards)"""
    HOOK.reset()
    reseed(seed)
    try:
        r = ("ok", G(**kw))
    except RuntimeError as e:
        r = ("raise", type(e).__name__)
    return r, torch.get_rng_state()


def run_glob(case, ctx):
    o = case["g"]
    rng = Rng("hist", case["ps"])
    ctx.state(o["k"], o["hist"])
    ref, st = seeded(Glob(o), o["s"])
    ctx.ev(ref)
    G = Glob(o)
    first, st1 = seeded(G, o["s"])
    if not eq(first, ref) or not bool((st == st1).all()):
        ctx.violate("not-a-function-of-the-seed", f"{o['k']}: two fresh instances, same seed and inputs, different results", k=o["k"])
    for h in o["hist"]:
        ctx.step()
        if h == "same-other-seed":
            seeded(G, o["s"] + 1 + rng.randrange(100))
        elif h == "other-inputs":
            seeded(G, rng.seed_int(), **({"inp_seed": rng.seed_int()} if o["k"] in ("dcem", "samples", "jac") else {}))
        elif h == "draw":
            perturb(rng)
        elif h == "fail":
            c = OpFault(0)
            reseed(o["s"])
            with c:
                try:
                    G()
                except RuntimeError:
                    pass
            f = OpFault(1 + int(o["at"] * c.n))
            reseed(o["s"])
            try:
                with f:
                    G()
            except RuntimeError:
                pass
            if f.fired:
                ctx.fault("alloc_failure_in_stochastic_component")
        elif h == "fail-user":
            HOOK.reset()
            HOOK.arm(0)
            try:
                G()
            except RuntimeError:
                pass
            n = HOOK.n
            if n:
                HOOK.arm(1 + int(o["at"] * n), rng.choice([SimUserError, SimInterrupt]))
                try:
                    G()
                except OKF:
                    pass
                if HOOK.fired:
                    ctx.fault("user_code_fails_in_stochastic_component")
            HOOK.reset()
        got, st2 = seeded(G, o["s"])
        ctx.nontriv = True
        if not eq(got, ref):
            ctx.violate("not-a-function-of-the-seed", f"{o['k']}: re-run with the same seed and inputs after {h} differs: {str(got)[:150]} vs {str(ref)[:150]}", k=o["k"])
        elif not bool((st2 == st).all()):
            ctx.violate("not-a-function-of-the-seed", f"{o['k']}: after {h}, the re-run consumed a different amount of the global stream", k=o["k"])
    # jacobian self-check really samples: different seeds see different points
    return


# ------------------------------------------------------------------ threads
def thread_fn(p, out):
    def f():
        HOOK.reset()
        PLAN.reset()
        if p["k"] == "gen":
            g = torch.Generator().manual_seed(p["gs"])
            for o in p["ops"]:
                out.append(do_op(o, g))
            out.append(g.get_state())
        elif p["k"] == "glob":
            r, st = seeded(Glob(p["g"]), p["g"]["s"])
            out.append(r)
            out.append(st)
        else:
            r = Rng("noise", p["s"])
            for _ in range(p["n"]):
                perturb(r)
                th.SO3.rand(2)  # library code draws from the global stream as well

    return f


def run_threads(case, ctx):
    ths = case["threads"]
    if not ths:
        return
    solo = []
    for p in ths:
        out = []
        e = sched.solo(thread_fn(p, out))
        if e is not None:
            raise e
        solo.append(out)
    outs = [[] for _ in ths]
    S = sched.Scheduler(len(ths), case["sseed"], case["q"], case["hot"], case.get("sched"))
    errs = S.run([thread_fn(p, o) for p, o in zip(ths, outs)])
    ctx.sched = S.schedule()
    ctx.step(S.lines)
    ctx.probe("preemptions", S.switches)
    ctx.state([p["k"] for p in ths], S.schedule())
    if S.switches > 3:
        ctx.nontriv = True
    for i, p in enumerate(ths):
        if errs[i] is not None:
            raise errs[i]
        if p["k"] != "noise" and not eq(outs[i], solo[i]):
            what = p["g"]["k"] if p["k"] == "glob" else [name(o) for o in p["ops"]]
            ctx.violate("depends-on-other-threads", f"thread {i} ({p['k']} {what}) drew different values next to other threads", k=p["k"])
        if p["k"] != "noise":
            ctx.ev(outs[i])
    ctx.ev(S.schedule())


def run(case, ctx):
    old = torch.get_default_dtype()
    try:
        if case.get("dd") == "float64":
            torch.set_default_dtype(torch.float64)
        {"serial": run_serial, "glob": run_glob, "threads": run_threads}[case["k"]](case, ctx)
    finally:
        torch.set_default_dtype(old)
        HOOK.reset()


def shrink(case):
    def cp():
        return json.loads(json.dumps(case))

    if case["k"] == "serial":
        for i in range(len(case["ops"])):
            if len(case["ops"]) > 1:
                c = cp()
                del c["ops"][i]
                yield c
    elif case["k"] == "glob":
        for i in range(len(case["g"]["hist"])):
            if len(case["g"]["hist"]) > 1:
                c = cp()
                del c["g"]["hist"][i]
                yield c
        if "spec" in case["g"]:
            for s in wd.shrink_spec(case["g"]["spec"]):
                c = cp()
                c["g"]["spec"] = s
                yield c
    else:
        if len(case["threads"]) > 1 and "sched" in case:
            for i in range(len(case["threads"])):
                c = cp()
                del c["threads"][i]
                c["sched"] = [[t - (t > i), k] for t, k in c["sched"] if t != i]
                yield c
        for i, p in enumerate(case["threads"]):
            if p["k"] == "gen" and len(p["ops"]) > 1:
                for j in range(len(p["ops"])):
                    c = cp()
                    del c["threads"][i]["ops"][j]
                    yield c
        if "sched" in case:
            for s in sched.merged(case["sched"]):
                yield dict(case, sched=s)
