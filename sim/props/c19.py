"""C19 - converting dtype at any time is equivalent to building in that dtype."""
import json

import torch
import theseus as th

from .. import hist, layers as ly, world as wd
from ..core import SIM_FAULTS, StepBudget
from ..faults import EXC, HOOK, PLAN, OpFault

RUNS = {"quick": 420, "thorough": 30000}
RULE = ("a run is one layer and a schedule of conversions (by layer, objective or repeated; some failing half way and issued again) placed "
        "among forward calls in any mode, evaluations, copies, refused inputs and failures, under either default dtype; after each conversion "
        "the objective is compared with one built in the new dtype from the converted tensors, and every later call with the same call on "
        "such a layer; non-trivial if something was computed before a conversion")
REAL = ["Objective.to, TheseusLayer.to, cost functions, weights, robust and autodiff costs, vectorization", "all optimizers incl. DCEM",
        "linear solvers", "direct loss minimization", "torch autograd"]
STUB = ["user cost functions", "tensor allocator (dispatch seam)", "linear solver failures"]
ASSUMPTIONS = ["conversions between single and double precision, on the CPU"]

OTHER = {"float32": "float64", "float64": "float32"}


def gen(rng, tier, i):
    spec = wd.gen_spec(rng, nextra=(0, 5), nv=(1, 3), dtype=rng.choice(["float64", "float32"]), zero=rng.choice([0, 0.2]), maxc=7)
    vec = all(v["t"] in ("Vector", "Point2", "Point3") for v in spec["vars"] if v["role"] == "o")
    cfg = ly.gen_cfg(rng, algs=["gn", "gn", "lm", "lma", "dogleg"] + (["dcem"] * 2 if vec else []), max_it=rng.choice([1, 2, 3]), tol=rng.choice(["none", "none", "default"]))
    modes = ["unroll", "implicit", "truncated"]
    if cfg["alg"] in ("gn", "lm") and cfg["solver"] != "lu":
        modes += ["dlm", "dlm"]
    ev = []
    n = rng.randint(3, 8)
    for j in range(n):
        k = rng.wchoice([("to", 4), ("fwd", 4), ("err", 1), ("lin", 1), ("upd", 1), ("failto", 1.2), ("bad", 0.8), ("copy", 0.6), ("hold", 1),
                         ("release", 1.2), ("fwdfail", 0.8), ("varto", 0.4), ("samples", 0.4), ("verify", 0.3), ("back", 0.8), ("grow", 0.5)])
        e = dict(k=k, s=rng.seed_int(), at=round(rng.random(), 4))
        if k in ("fwd", "hold", "fwdfail"):
            e["c"] = ly.gen_call(rng, spec, cfg, modes=modes, rgp=0.4)
            if e["c"]["bm"] == "dlm":
                e["c"]["eps"] = rng.choice([1e-2, 1e-3])
                e["c"]["rg"] = [x for x in e["c"]["rg"]]
        if k in ("to", "failto", "back"):
            e["how"] = rng.choice(["layer", "layer", "obj", "layer-dtype", "obj-dtype", "tensor"])
            e["d"] = rng.choice(["other", "other", "other", "same"])
        ev.append(e)
    if not any(e["k"] in ("to", "back") for e in ev):
        ev.insert(rng.randrange(len(ev)), dict(k="to", s=rng.seed_int(), at=0.5, how="layer", d="other"))
    return dict(spec=spec, cfg=cfg, ev=ev, dd=rng.choice(["float32", "float32", "float64"]))


def do_to(W, how, dt):
    if how == "layer":
        W.layer.to(dtype=dt)
    elif how == "layer-dtype":
        W.layer.to(dt)
    elif how == "obj":
        W.obj.to(dtype=dt)
    elif how == "obj-dtype":
        W.obj.to(dt)
    else:
        W.layer.to(torch.zeros(1, dtype=dt))


class Sim:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.W = ly.build(case["spec"], case["cfg"], faulty=True)
        self.W.obj.update()
        self.held = []
        self.used = False

    def ref(self, reset=True):
        """a layer built in the present dtype from the present tensors"""
        W = self.W
        t = {n: v.tensor.detach().clone() for n, v in W.vars.items()}
        R = ly.build(self.case["spec"], self.case["cfg"], tensors=t, dtype=W.dtype_name, faulty=True)
        R.obj.update()
        return R

    def converted(self, what):
        W, ctx = self.W, self.ctx
        dt = wd.DT[W.dtype_name]
        W.dtype = dt
        if W.obj.dtype != dt or W.layer.dtype != dt:
            ctx.violate("dtype-kept", f"{what}: objective dtype {W.obj.dtype}, layer dtype {W.layer.dtype}, expected {dt}")
        for n, v in W.vars.items():
            if v.tensor.dtype != dt or v.dtype != dt:
                ctx.violate("dtype-kept", f"{what}: variable {n} is {v.tensor.dtype}, expected {dt}")
                return
        for cf in W.obj.cost_functions.values():
            for v in list(cf.optim_vars) + list(cf.aux_vars) + list(cf.weight.aux_vars):
                if v.tensor.dtype != dt:
                    ctx.violate("dtype-kept", f"{what}: variable {v.name} of {cf.name} is {v.tensor.dtype}")
                    return
        self.observe(what)

    def observe(self, what):
        W, ctx = self.W, self.ctx
        R = self.ref()
        for tag, f in (("error", lambda w: w.obj.error()), ("linearization", lambda w: torch.cat([x.reshape(-1) for x in hist.linearize(w.obj)])),
                       ("metric", lambda w: w.obj.error_metric())):
            a, b = f(W).detach(), f(R).detach()
            if a.dtype != W.dtype:
                ctx.violate("dtype-kept", f"{what}: {tag} is {a.dtype}, expected {W.dtype}")
            elif not ly.finite_case([b], 1e8):
                return
            elif not wd.close(a, b, k=10.0 if tag != "error" else 1.0):
                ctx.violate("differs-from-built", f"{what}: {tag} differs from that of an objective built in {W.dtype_name}: {wd.diff(a, b)}")
                return
        for cf, rf in zip(W.obj.cost_functions.values(), R.obj.cost_functions.values()):
            for tag, a, b in (("error", cf.error(), rf.error()), ("weighted error", cf.weighted_error(), rf.weighted_error())):
                if a.dtype != W.dtype:
                    ctx.violate("dtype-kept", f"{what}: {tag} of {cf.name} is {a.dtype}")
                    return
                if not wd.close(a.detach(), b.detach()):
                    ctx.violate("differs-from-built", f"{what}: {tag} of {cf.name}: {wd.diff(a, b)}")
                    return
        ctx.ev(what.split(" ")[0], W.dtype_name)

    def outcome(self, W, call, plan=None):
        PLAN.reset()
        HOOK.reset()
        if W.cfg["alg"] == "dcem":
            torch.manual_seed(call["s"] % 100003)
        c = dict(call)
        if c["bm"] == "dlm":
            c["rg"] = [n for n in c["rg"] if n not in W.optim]
        if W.cfg["alg"] == "dcem":
            c = dict(c, b=None)
        inp = None
        try:
            inp, vals, info = ly.run(W, c, grad=True)
            g = {}
            if W.cfg["alg"] != "dcem":
                g = ly.grads_of(inp, vals, c["s"] % 1000)
            return ("ok", vals, ly.flat_info(info), g)
        except RuntimeError as e:
            return ("raise", type(e).__name__, str(e)[:300], None)

    def compare(self, got, ref, what):
        W, ctx = self.W, self.ctx
        if got[0] != ref[0]:
            if got[0] == "raise" or "singular" not in str(ref[2]) and "Cholesky" not in str(ref[2]) and "cholesky" not in str(ref[2]):
                ctx.violate("call-fails", f"{what}: {got[:1] + (got[1:3] if got[0] == 'raise' else ())} on the converted layer, "
                                          f"{ref[:1] + (ref[1:3] if ref[0] == 'raise' else ())} on one built in {W.dtype_name}")
            return
        if got[0] == "raise":
            return
        for n, x in list(got[1].items()) + list(got[2].items()) + [("grad " + n, x) for n, x in got[3].items()]:
            if x.dtype.is_floating_point and x.dtype != W.dtype:
                ctx.violate("dtype-kept", f"{what}: {n} is {x.dtype}, expected {W.dtype}")
                return
        fin = [x for d in ref[1:] for x in d.values() if x.dtype.is_floating_point]
        if not ly.finite_case([x[torch.isfinite(x)] for x in fin], 1e5):
            ctx.probe("ill_conditioned")
            return
        k = 50.0 if W.dtype == torch.float64 else 20.0
        if W.dtype == torch.float32:
            # iterates of ill-conditioned problems amplify rounding; precision leaks are visible in double precision runs
            if W.cfg["max_it"] > 1 or W.cfg["alg"] in ("lma", "dogleg", "dcem"):
                return
        if ly.compare(ctx, "differs-from-built", got[1], ref[1], k, where=what):
            if ly.compare(ctx, "differs-from-built", {a: b for a, b in got[2].items()}, ref[2], k):
                ly.compare(ctx, "differs-from-built", got[3], ref[3], k * 10)
        ctx.ev(what.split(" ")[0], got[1])

    def step(self, e):
        W, ctx, k = self.W, self.ctx, e["k"]
        ctx.step()
        ctx.state(k, W.dtype_name, e.get("how"), e.get("c", {}).get("bm"))
        HOOK.reset()
        PLAN.reset()
        what = f"{k} {e.get('how', '')}"
        if k in ("to", "back"):
            d = W.dtype_name if e["d"] == "same" else OTHER[W.dtype_name]
            vals = wd.snapshot(W)
            do_to(W, e["how"], wd.DT[d])
            if k == "back":
                do_to(W, e["how"], wd.DT[OTHER[d]])
                d2 = OTHER[d]
                vals = {n: x.to(wd.DT[d]).to(wd.DT[d2]) for n, x in vals.items()}
                d = d2
            W.dtype_name = d
            ctx.probe("conversions")
            if self.used:
                ctx.nontriv = True
            for n, x in vals.items():
                if not wd.same_bits(W.vars[n].tensor, x.to(wd.DT[d])):
                    ctx.violate("values-changed", f"{what}: {n} is not the converted value")
                    return
            self.converted(what)
        elif k == "failto":
            d = W.dtype_name if e["d"] == "same" else OTHER[W.dtype_name]
            c = OpFault(0)
            R = self.ref()
            with c:
                do_to(R, e["how"], wd.DT[d])
            f = OpFault(1 + int(e["at"] * c.n))
            try:
                with f:
                    do_to(W, e["how"], wd.DT[d])
            except RuntimeError:
                if not f.fired:
                    raise
            if f.fired:
                ctx.fault("alloc_failure_in_conversion")
            do_to(W, e["how"], wd.DT[d])
            W.dtype_name = d
            if self.used:
                ctx.nontriv = True
            self.converted(what + " after a failed conversion")
        elif k == "varto":
            # one variable converted alone is refused by nothing, but the objective notices at the next update
            n = list(W.vars)[e["s"] % len(W.vars)]
            W.vars[n].to(dtype=wd.DT[OTHER[W.dtype_name]])
            try:
                W.obj.update()
                ctx.probe("mixed_dtypes_accepted")
            except (ValueError, RuntimeError):
                ctx.fault("mixed_dtypes_refused")
            W.obj.to(dtype=wd.DT[W.dtype_name])
            self.converted(what)
        elif k == "fwd":
            R = self.ref()
            got = self.outcome(W, e["c"])
            ref = self.outcome(R, e["c"])
            self.compare(got, ref, f"forward {e['c']['bm']} of a {W.dtype_name} layer")
            self.used = True
        elif k == "hold":
            c = dict(e["c"])
            if W.cfg["alg"] == "dcem":
                return
            if c["bm"] == "dlm":
                c["rg"] = [n for n in c["rg"] if n not in W.optim]
            out = []
            R = self.ref()
            for w in (W, R):
                PLAN.reset()
                try:
                    inp, vals, info = ly.run(w, c, grad=True)
                    out.append((inp, vals))
                except RuntimeError:
                    out.append(None)
            self.used = True
            if None not in out:
                self.held.append((out, c, W.dtype_name))
        elif k == "release":
            if not self.held:
                return
            (o, c, d) = self.held.pop(e["s"] % len(self.held))
            gs = []
            for inp, vals in o:
                PLAN.reset()
                try:
                    gs.append(ly.grads_of(inp, vals, c["s"] % 1000))
                except RuntimeError as ex:
                    gs.append(ex)
            if isinstance(gs[1], Exception):
                return
            if isinstance(gs[0], Exception):
                ctx.violate("call-fails", f"delayed backward ({c['bm']}, computed in {d}, layer now {W.dtype_name}) raises {type(gs[0]).__name__}: {str(gs[0])[:200]}")
                return
            for n, x in gs[0].items():
                if x.dtype != wd.DT[d]:
                    ctx.violate("dtype-kept", f"delayed gradient of {n} is {x.dtype}, the call was in {d}")
                    return
            if ly.finite_case(list(gs[1].values()), 1e5) and d == "float64":
                ly.compare(ctx, "differs-from-built", gs[0], gs[1], 500.0)
        elif k == "fwdfail":
            n = self.count(e["c"])
            if n:
                HOOK.arm(1 + int(e["at"] * n), EXC["user" if e["s"] % 2 else "interrupt"])
                try:
                    c = dict(e["c"])
                    if c["bm"] == "dlm":
                        c["rg"] = [x for x in c["rg"] if x not in W.optim]
                    if W.cfg["alg"] == "dcem":
                        c["b"] = None
                    ly.run(W, c, grad=True)
                except SIM_FAULTS + (RuntimeError,):
                    pass
                if HOOK.fired:
                    ctx.fault("user_code_fails_in_call")
                HOOK.reset()
                self.used = True
            self.reset_values(e["s"])
        elif k == "err":
            W.obj.update()
            self.observe("err")
            self.used = True
        elif k == "lin":
            hist.linearize(W.obj)
            self.used = True
        elif k in ("upd", "grow"):
            self.reset_values(e["s"], None if k == "upd" else 1 + e["s"] % 5)
            self.used = True
        elif k == "bad":
            before = wd.snapshot(W)
            inp = {n: x.to(wd.DT[OTHER[W.dtype_name]]) for n, x in wd.rand_inputs(W.spec, e["s"], names=list(W.vars)).items()}
            one = W.optim[e["s"] % len(W.optim)]
            try:
                W.obj.update({one: inp[one]})
                ctx.violate("accepted-invalid", f"a {OTHER[W.dtype_name]} tensor was accepted by a {W.dtype_name} objective")
            except ValueError:
                ctx.fault("wrong_dtype_refused")
            for n, x in before.items():
                if not wd.same_bits(W.vars[n].tensor, x):
                    ctx.violate("values-changed", f"refused {OTHER[W.dtype_name]} input changed {n}")
                    return
            self.observe("refused-input")
        elif k == "copy":
            C = W.obj.copy()
            d = OTHER[W.dtype_name]
            C.update()
            C.error()
            C.to(dtype=wd.DT[d])
            self.observe("converting-a-copy")
            if any(v.tensor.dtype != wd.DT[d] for m in (C.optim_vars, C.aux_vars) for v in m.values()) or C.dtype != wd.DT[d]:
                ctx.violate("dtype-kept", "a converted copy keeps variables in the old dtype")
            t = {n: v.tensor.detach().to(wd.DT[d]) for n, v in W.vars.items()}
            R = wd.build(W.spec, tensors=t, dtype=d)
            R.obj.update()
            a, b = C.error().detach(), R.obj.error().detach()
            if a.dtype != wd.DT[d] or (ly.finite_case([b], 1e8) and not wd.close(a, b)):
                ctx.violate("differs-from-built", f"error of a converted copy: {wd.diff(a, b)}")
        elif k == "samples":
            if W.cfg["alg"] == "dcem" or W.cfg["solver"] != "chol":
                return
            r = self.outcome(W, dict(s=e["s"], b=None, bm="unroll", track=[], rg=[], sc=1.0))
            if r[0] == "ok":
                try:
                    x = W.layer.compute_samples(W.opt.linear_solver, 2)
                except RuntimeError:
                    return
                if x.dtype != W.dtype:
                    ctx.violate("dtype-kept", f"compute_samples returns {x.dtype} from a {W.dtype_name} layer")
        elif k == "verify":
            if W.dtype_name == "float32":
                return
            try:
                W.layer.verify_jacobians(num_checks=1, tol=1e6)
            except RuntimeError as ex:
                ctx.violate("call-fails", f"verify_jacobians after conversions: {str(ex)[:200]}")
            self.reset_values(e["s"])

    def count(self, c):
        R = self.ref()
        c = dict(c)
        if c["bm"] == "dlm":
            c["rg"] = [n for n in c["rg"] if n not in R.optim]
        if R.cfg["alg"] == "dcem":
            c["b"] = None
        HOOK.reset()
        try:
            ly.run(R, c, grad=True)
        except RuntimeError:
            pass
        n = HOOK.n
        HOOK.reset()
        return n

    def reset_values(self, s, b=None):
        W = self.W
        t = {n: x.to(W.dtype) for n, x in wd.rand_inputs(W.spec, s, names=list(W.vars), b=b if b and W.cfg["alg"] != "dcem" else W.spec["B"]).items()}
        W.obj.update(t)


def run(case, ctx):
    old = torch.get_default_dtype()
    try:
        torch.set_default_dtype(wd.DT[case["dd"]])
        S = Sim(case, ctx)
        for e in case["ev"]:
            S.step(e)
            if ctx.viol:
                return
    finally:
        torch.set_default_dtype(old)
        HOOK.reset()
        PLAN.reset()


def shrink(case):
    for i in range(len(case["ev"])):
        if len(case["ev"]) > 1:
            c = json.loads(json.dumps(case))
            del c["ev"][i]
            yield c
    for s in wd.shrink_spec(case["spec"]):
        c = json.loads(json.dumps(case))
        c["spec"] = s
        yield c
