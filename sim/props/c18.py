"""C18 - runs are bit-for-bit repeatable."""
import gc
import itertools
import json
import os
import subprocess
import sys
import threading
import time

import torch
import theseus as th
from torch.utils._python_dispatch import TorchDispatchMode

from .. import layers as ly, modes, progs, robots, world as wd
from ..core import Rng
from ..faults import HOOK, PLAN

RUNS = {"quick": 40, "thorough": 1500}
RULE = ("a run is a set of programs (layers with all optimizers, backward modes and failures; objectives; unnamed problems; groups; robots; "
        "seeded sampling) whose every returned bit and key order is recorded alone, then again after unrelated work and object creation, in "
        "another thread, under a clock that jumps, with different garbage in uninitialised memory, and in a newly started interpreter with "
        "another hash seed and other prior work; non-trivial if at least one repetition under changed conditions was compared")
REAL = ["theseus, torchlie, torchkin", "Python interpreter (restarted with another hash seed)"]
STUB = ["clock (time.time, perf_counter, monotonic, process_time replaced by a seeded jumping clock)", "contents of uninitialised tensors",
        "prior work and heap layout", "user cost functions, linear solver failures"]
ASSUMPTIONS = ["one CPU thread inside tensor operators; same machine and library versions"]
VERIFDIR = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
KINDS = ["layer", "layer", "layer", "obj", "geo", "tl", "robot", "anon", "anon", "anon", "dcem", "utils"]


# ------------------------------------------------------------------ generation
def gen_prog(rng):
    k = rng.choice(KINDS)
    if k == "dcem":
        for _ in range(30):
            spec = wd.gen_spec(rng, nv=(1, 3), nextra=(0, 3), maxc=5, zero=0)
            if all(v["t"] in ("Vector", "Point2", "Point3") for v in spec["vars"] if v["role"] == "o"):
                break
        else:
            k = "anon"
        if k == "dcem":
            cfg = ly.gen_cfg(rng, algs=["dcem"], solvers=["chol"])
            return dict(k=k, spec=spec, cfg=cfg, calls=[dict(ly.gen_call(rng, spec, cfg), b=None) for _ in range(2)], s=rng.seed_int())
    if k == "anon":
        spec = wd.gen_spec(rng, nv=(2, 5), nextra=(1, 6), maxc=10)
        cfg = ly.gen_cfg(rng, max_it=rng.choice([1, 2, 3]))
        return dict(k=k, spec=spec, cfg=cfg, s=rng.seed_int(), named=rng.p(0.3), bm=rng.choice(["unroll", "implicit", "truncated"]),
                    order=[rng.random() for _ in spec["c"]])
    if k == "utils":
        return dict(k=k, ops=[dict(o=rng.choice(["sparse", "binary", "pg", "lie", "ba", "gauss"]), s=rng.seed_int(), n=rng.randint(1, 6)) for _ in range(3)], s=rng.seed_int())
    return progs.gen(rng, [k])


def gen(rng, tier, i):
    n = rng.randint(4, 8)
    return dict(progs=[gen_prog(rng) for _ in range(n)], before=[gen_prog(rng) for _ in range(rng.randint(0, 3))],
                conds=[c for c in ("after", "thread", "clock", "memory") if rng.p(0.7)] + ["exec"], hs=rng.randrange(1, 4000000),
                ps=rng.seed_int(), junk=rng.randint(0, 3000), roll=rng.p(0.6), gc=rng.choice(["on", "off", "eager"]))


# ------------------------------------------------------------------ programs
def run_anon(p, rec):
    """variables, weights and costs without names (unless p.named): nothing may depend on automatic names"""
    spec = p["spec"]
    with AutoNames(not p["named"]):
        idx = sorted(range(len(spec["c"])), key=lambda i: p["order"][i] if i < len(p["order"]) else 0)
        W = ly.build(spec, p["cfg"], faulty=True, order=idx)
    back = {v.name: n for n, v in W.vars.items()}
    costs = {f.name: n for n, f in W.costs.items()}

    def nm(x):
        return back.get(x, costs.get(x, "?"))

    rec("order", [nm(n) for n in W.obj.optim_vars], [nm(n) for n in W.obj.aux_vars], [nm(n) for n in W.obj.cost_functions],
        [nm(n) for n in W.obj.cost_weight_optim_vars], W.obj.dim())
    W.obj.update()
    rec("error", W.obj.error())
    try:
        lin = getattr(W.opt.linear_solver, "linearization", None)
        rec("ordering", [nm(v.name) for v in lin.ordering])
        if hasattr(lin, "A_row_ptr"):
            rec("sparsity", [int(x) for x in lin.A_row_ptr], [int(x) for x in lin.A_col_ind])
        lin.linearize()
        rec("lin", lin.A_val if hasattr(lin, "A_val") else lin.A, lin.b)
    except RuntimeError:
        rec("lin-raises")
    sink = rec.items
    runs = []
    for rep in range(3):
        rec.items = []
        anon_call(p, rec, W, spec, nm, p["s"] if rep != 1 else p["s"] + 1)
        runs.append(rec.items)
    if rec.again is None:
        rec.again = []
    for x, y in zip(runs[0], runs[2]):
        if x[:2] != y[:2]:
            rec.again.append((x, y))
    rec.items = sink + runs[0] + runs[1] + runs[2]
    c = W.obj.copy()
    rec("copy", len(c.cost_functions), [costs.get(n.replace("_copy", ""), "?") if p["named"] else "" for n in c.cost_functions], c.dim())


def anon_call(p, rec, W, spec, nm, seed):
    call = dict(s=seed, b=None, bm=p["bm"], bni=1, track=["best", "err", "state"], rg=[v["n"] for v in spec["vars"] if v["n"] in W.vars][::2], sc=1.0)
    inp = ly.inputs(W, call)
    try:
        vals, info = W.layer.forward({W.vars[n].name: x for n, x in inp.items()}, optimizer_kwargs=ly.okw(p["cfg"], call))
        vals = {nm(n): x for n, x in vals.items()}
        rec("vals", list(vals), list(vals.values()))
        fi = ly.flat_info(info)
        for n in ("state_history", "best_solution"):
            d = getattr(info, n, None)
            if d is not None:
                rec(n, [nm(x) for x in d], [x.detach() for x in d.values()])
        rec("info", {k: v for k, v in fi.items() if "." not in k})
        g = ly.grads_of(inp, {k: vals[k] for k in sorted(vals)}, p["s"] % 1000)
        rec("grads", [n for n in g], list(g.values()))
    except RuntimeError as e:
        rec("raises", type(e).__name__)


class AutoNames:
    """variables and functions are built without names"""

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        if self.on:
            self.old = (th.Variable.__init__, th.core.theseus_function.TheseusFunction.__init__)
            vi, fi = self.old

            def vinit(s, tensor, name=None):
                vi(s, tensor, None)

            def finit(s, name=None):
                fi(s, None)

            th.Variable.__init__ = vinit
            th.core.theseus_function.TheseusFunction.__init__ = finit

    def __exit__(self, *a):
        if self.on:
            th.Variable.__init__, th.core.theseus_function.TheseusFunction.__init__ = self.old


def run_dcem(p, rec):
    W = ly.build(p["spec"], p["cfg"])
    for c in p["calls"]:
        torch.manual_seed(p["s"] % 100003)
        with torch.no_grad():
            try:
                _, vals, info = ly.run(W, c, grad=False)
                rec("dcem", list(vals), list(vals.values()))
                rec("info", ly.flat_info(info))
            except RuntimeError as e:
                rec("raises", type(e).__name__)


def run_utils(p, rec):
    from theseus import utils as tu
    from theseus.utils.examples import BundleAdjustmentDataset, PoseGraphDataset
    import numpy as np
    import random as pyrandom

    for o in p["ops"]:
        g = torch.Generator().manual_seed(o["s"])
        torch.manual_seed(o["s"] % 100003)
        np.random.seed(o["s"] % 100003)
        pyrandom.seed(o["s"])
        if o["o"] == "sparse":
            a, b, c, m = tu.random_sparse_matrix(2, o["n"], 3, 0.5, 1, g, "cpu")
            rec("sparse", a, b, c, m.indices.tolist())
        elif o["o"] == "binary":
            m = tu.random_sparse_binary_matrix(o["n"], 4, 0.5, 1, g)
            rec("binary", m.indptr.tolist(), m.indices.tolist())
        elif o["o"] == "pg":
            D, inl = PoseGraphDataset.generate_synthetic_3D(3 + o["n"], dtype=torch.float64, loop_closure_ratio=0.5, generator=g if o["s"] % 2 else None)
            rec("pg", [int(x) for x in inl], [(int(e.i), int(e.j)) for e in D.edges], [x.tensor for x in D.poses], [e.relative_pose.tensor for e in D.edges])
        elif o["o"] == "ba":
            D = BundleAdjustmentDataset.generate_synthetic(2, 4 + o["n"], 2)
            rec("ba", [x.tensor for x in D.points], [(int(x.camera_index), int(x.point_index)) for x in D.observations], [c.pose.tensor for c in D.cameras])
        elif o["o"] == "lie":
            rec("lie", th.SE3.rand(o["n"], generator=g).tensor, th.SO2.randn(o["n"]).tensor)
        elif o["o"] == "gauss":
            mean = [th.Vector(tensor=torch.randn(2, 3, generator=g, dtype=torch.float64)) for _ in range(2)]
            G = th.ManifoldGaussian(mean)
            rec("gauss", th.local_gaussian(mean[0], th.ManifoldGaussian([mean[1]]))[0] if hasattr(th, "local_gaussian") else G.precision)


def run_prog(p, scratch):
    rec = progs.Rec()
    rec.again = None
    HOOK.reset()
    PLAN.reset()
    torch.manual_seed(7)
    own = {"anon": run_anon, "dcem": run_dcem, "utils": run_utils}
    if p["k"] in own:
        own[p["k"]](p, rec)
    else:
        progs.run(p, rec, scratch)
    return [list(x[:2]) for x in rec.items], [x[2] for x in rec.items], rec.again or []


def run_all(ps, scratch, roll=None):
    out = []
    for p in ps:
        if roll is not None and p["k"] == "anon":
            roll_over(roll)
        out.append(run_prog(p, scratch))
    return out


def set_ids(n):
    """the counters behind automatic names continue at n (left alone if the code keeps them elsewhere)"""
    for cls in (th.Variable, th.core.theseus_function.TheseusFunction):
        if isinstance(getattr(cls, "_ids", None), itertools.count):
            cls._ids = itertools.count(n)


def roll_over(rng):
    """bring the counters to just before the number of digits changes"""
    set_ids(10 ** rng.randint(1, 6) - rng.randint(1, 8))


# ------------------------------------------------------------------ conditions
class Clock:
    """a clock that jumps forwards and backwards"""

    NAMES = ("time", "perf_counter", "monotonic", "process_time")

    def __init__(self, seed):
        self.r = Rng("clock", seed)
        self.t = 1e9
        self.reads = 0

    def now(self):
        self.reads += 1
        self.t += self.r.choice([0.0, 1e-9, 1e-3, 1.0, 3600.0, 1e7, -1.0, -1e5])
        return self.t

    def __enter__(self):
        self.old = {n: getattr(time, n) for n in self.NAMES}
        for n in self.NAMES:
            setattr(time, n, self.now)
        self.ns = time.time_ns, time.perf_counter_ns, time.monotonic_ns
        time.time_ns = time.perf_counter_ns = time.monotonic_ns = lambda: int(self.now() * 1e9)

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(time, n, f)
        time.time_ns, time.perf_counter_ns, time.monotonic_ns = self.ns


EMPTY = {torch.ops.aten.empty.memory_format, torch.ops.aten.new_empty.default, torch.ops.aten.empty_like.default, torch.ops.aten.empty_strided.default,
         torch.ops.aten.new_empty_strided.default}


class Garbage(TorchDispatchMode):
    """uninitialised tensors contain the given garbage"""

    def __init__(self, kind, seed):
        super().__init__()
        self.kind = kind
        self.g = torch.Generator().manual_seed(seed)
        self.n = 0

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        with torch._C.DisableTorchFunctionSubclass():
            x = func(*args, **(kwargs or {}))
            if func in EMPTY and isinstance(x, torch.Tensor) and x.numel():
                self.n += 1
                if self.kind == "zero":
                    x.zero_()
                elif x.dtype.is_floating_point:
                    x.fill_([float("nan"), 1e30, -7.25][self.n % 3])
                else:
                    x.fill_(1)
            return x


def other_work(case, rng, scratch):
    for p in case["before"]:
        run_prog(p, scratch)
    keep = []
    for j in range(case["junk"]):
        x = object() if j % 3 else th.Vector(1 + j % 2)
        if j % 7 == 0:
            th.ScaleCostWeight(1.0)
        if rng.p(0.5):
            keep.append(x)
    torch.rand(rng.randint(1, 5))
    if case["gc"] == "off":
        gc.disable()
    elif case["gc"] == "eager":
        gc.set_threshold(3, 2, 2)
    return keep


def restore_gc():
    gc.enable()
    gc.set_threshold(700, 10, 10)


def child():
    case = json.loads(sys.stdin.read())
    out = sys.__stdout__
    sys.stdout = sys.stderr
    modes.install_warnings()
    rng = Rng("child", case["ps"])
    with robots.Scratch() as d, Clock(case["ps"]):
        keep = other_work(case, rng, d)
        res = run_all(case["progs"], d, rng if case.get("roll") else None)
        del keep
    out.write("C18RESULT " + json.dumps([r[0] for r in res]) + "\n")
    out.flush()
    return 0


def diff(a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return k, f"{x[0]} vs {y[0]}" if x[0] != y[0] else x[0]
    return min(len(a), len(b)), f"{len(a)} vs {len(b)} observations"


def run(case, ctx):
    ps = case["progs"]
    if not ps:
        return
    modes.install_warnings()
    rng = Rng("here", case["ps"])
    set_ids(100000 + case["ps"] % 100000)
    with robots.Scratch() as d:
        base = run_all(ps, d)
        ctx.step(len(ps))
        ctx.ev([b[0] for b in base])
        for p, b in zip(ps, base):
            ctx.state(b[0])
            if b[2]:
                x, y = b[2][0]
                ctx.violate("not-repeatable", f"{p['k']} program: the same call made again after another call returns another {x[0]}: {x[2][:200]} vs {y[2][:200]}", cond="again")
                return

        def against(cond, got, detail=None, ref=None):
            ctx.nontriv = True
            for p, b, g in zip(ps, ref or base, got):
                if b[0] != g[0]:
                    k, what = diff(b[0], g[0])
                    ctx.violate("not-repeatable", f"{p['k']} program, observation {k} ({what}) differs {cond}: "
                                                  f"{b[1][k][:200] if k < len(b[1]) else ''} vs {g[1][k][:200] if len(g) > 1 and k < len(g[1]) else ''}", cond=detail or cond)
                    return

        if "after" in case["conds"]:
            keep = other_work(case, rng, d)
            try:
                against("when repeated after other work", run_all(ps, d, rng if case.get("roll") else None))
            finally:
                restore_gc()
            ctx.fault("other_work_before", 1)
            ctx.fault("gc_" + case["gc"])
            del keep
        if "thread" in case["conds"]:
            res = []
            err = []

            def f():
                try:
                    res.extend(run_all(ps, d))
                except BaseException as e:  # noqa
                    err.append(e)

            t = threading.Thread(target=f)
            t.start()
            t.join()
            if err:
                raise err[0]
            against("in another thread", res)
            ctx.fault("other_thread")
        if "clock" in case["conds"]:
            c = Clock(case["ps"])
            with c:
                got = run_all(ps, d)
            against("when the clock jumps", got)
            ctx.fault("clock_jump", c.reads)
        if "memory" in case["conds"]:
            sub = [p for p in ps if p["k"] != "tl"]
            both = []
            for kind in ("zero", "junk"):
                g = Garbage(kind, case["ps"])
                with g:
                    both.append([run_prog(p, d) for p in sub])
            ctx.fault("uninitialised_memory_filled", g.n)
            ctx.nontriv = True
            for p, b, g in zip(sub, *both):
                if b[0] != g[0]:
                    k, what = diff(b[0], g[0])
                    ctx.violate("not-repeatable", f"{p['k']} program, observation {k} ({what}) depends on the contents of uninitialised memory: "
                                                  f"{b[1][k][:200]} vs {g[1][k][:200]}", cond="memory")
                    break
        if "exec" in case["conds"] and not ctx.viol:
            env = dict(os.environ, PYTHONHASHSEED=str(case["hs"]))
            r = subprocess.run([sys.executable, "-m", "sim", "c18child"], input=json.dumps(case), text=True, capture_output=True, env=env, cwd=VERIFDIR)
            line = [x for x in r.stdout.splitlines() if x.startswith("C18RESULT ")]
            if not line:
                raise RuntimeError("child interpreter failed: " + r.stderr[-1500:])
            got = [(x,) for x in json.loads(line[0][len("C18RESULT "):])]
            against(f"in a new interpreter with hash seed {case['hs']}", got, "exec")
            ctx.fault("interpreter_restart_other_hash_seed")


def shrink(case):
    def cp():
        return json.loads(json.dumps(case))

    for i in range(len(case["progs"])):
        if len(case["progs"]) > 1:
            c = cp()
            del c["progs"][i]
            yield c
    for i in range(len(case["before"])):
        c = cp()
        del c["before"][i]
        yield c
    for x in case["conds"]:
        if len(case["conds"]) > 1:
            c = cp()
            c["conds"].remove(x)
            yield c
    if case["junk"]:
        yield dict(case, junk=case["junk"] // 2)
