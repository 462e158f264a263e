"""C08 - an objective's registry matches its history of adds and erases."""
import warnings
from collections import OrderedDict

import torch
import theseus as th

from .. import hist, layers as ly, world as wd
from ..faults import EXC, HOOK, PLAN

RUNS = {"quick": 700, "thorough": 40000}
RULE = ("a run is 8-30 operations (add new / again / name clash / variable clash / wrong dtype / dual role, erase present / missing, copy, vectorize, "
        "evaluate with failures, update, run layers built before and after) on one objective; after each one, the whole registry seen through the public "
        "queries is compared with a small reference model of sets and lists, and errors with an objective built from scratch; "
        "non-trivial if at least one refused addition and one erase happened")
REAL = ["Objective.add / erase / copy / queries", "TheseusFunction registration", "Optimizer / TheseusLayer version checks", "Vectorize"]
STUB = ["user cost functions and weights"]
ASSUMPTIONS = ["a cost function's own variable list is fixed after construction"]


class NullObjective:
    optim_vars: dict = {}

    def add(self, f):
        pass


class OptWeight(th.ScaleCostWeight):
    """registers its scale as an optimization variable"""

    def __init__(self, scale, name=None):
        th.CostWeight.__init__(self, name=name)
        self.scale = scale
        self.register_optim_vars(["scale"])


def gen(rng, tier, i):
    spec = wd.gen_spec(rng, nextra=(2, 6), nv=(2, 4), shared=0.7, dtype=rng.choice(["float64", "float64", "float32"]), zero=0.1, prior_all=True,
                       b1=0.2)
    names = [c["n"] for c in spec["c"]]
    ops = []
    for _ in range(rng.randint(8, 30)):
        k = rng.wchoice([("add", 10), ("again", 2), ("nameclash", 1.2), ("varclash", 1.5), ("dtype", 1), ("dual", 1.2), ("dualw", 0.8), ("self", 0.5), ("wopt", 0.03),
                         ("erase", 6), ("erasemiss", 1), ("eval", 2), ("update", 2), ("vec", 0.8), ("copy", 0.6), ("layer", 1.5), ("run", 3), ("add_all", 0.5)])
        o = dict(op=k, c=rng.choice(names), c2=rng.choice(names), s=rng.seed_int(), r=rng.randint(0, 5))
        if k == "eval":
            o["f"] = hist.gen_fault(rng, 0.4)
            o["g"] = rng.p(0.5)
        ops.append(o)
    return dict(spec=spec, ops=ops, mixed=rng.p(0.15))


# ------------------------------------------------------------------ the reference model
class Model:
    def __init__(self, dtype, mixed=False):
        self.mixed = mixed
        self.fn = OrderedDict()  # name -> function object
        self.version = 0
        self.dtype = dtype
        self.ov, self.av = OrderedDict(), OrderedDict()  # name -> (object, [functions])

    def clone(self):
        raise NotImplementedError

    def refusal(self, f):
        if f.name in self.fn:
            return "again" if self.fn[f.name] is f else "clash"
        known = {n: v for n, (v, _) in list(self.ov.items()) + list(self.av.items())}
        for g in (f, f.weight):
            for v in list(g.optim_vars) + list(g.aux_vars):
                if v.dtype != self.dtype:
                    return "dtype"
                if known.setdefault(v.name, v) is not v:
                    return "varclash"
        o = [v.name for v in f.optim_vars]
        a = [v.name for g in (f, f.weight) for v in g.aux_vars]
        if not self.mixed and (any(n in a or n in self.av for n in o) or any(n in self.ov for n in a)):
            return "dual"
        if list(f.weight.optim_vars):
            return "weight-optim-vars"
        return None

    def _use(self, d, v, g):
        d.setdefault(v.name, (v, []))[1].append(g)

    def add(self, f):
        wnew = not any(g.weight is f.weight for g in self.fn.values())
        self.fn[f.name] = f
        for v in f.optim_vars:
            self._use(self.ov, v, f)
        for v in f.aux_vars:
            self._use(self.av, v, f)
        if wnew:
            for v in f.weight.aux_vars:
                self._use(self.av, v, f.weight)

    def _drop(self, d, v, g):
        fs = d[v.name][1]
        fs[:] = [x for x in fs if x is not g]
        if not fs:
            del d[v.name]

    def erase(self, name):
        f = self.fn.pop(name)
        for v in f.optim_vars:
            self._drop(self.ov, v, f)
        for v in f.aux_vars:
            self._drop(self.av, v, f)
        if not any(g.weight is f.weight for g in self.fn.values()):
            for v in f.weight.aux_vars:
                self._drop(self.av, v, f.weight)


def ident(xs):
    return [id(x) for x in xs]


def compare(ctx, obj, m, i, op):
    where = dict(op=op)

    def chk(cond, what, detail=""):
        return ctx.check(cond, "registry-differs", lambda: f"step {i} ({op}): {what} {detail}", what=what, **where)

    if not chk([f.name for f in obj] == list(m.fn) and ident(obj) == ident(m.fn.values()), "cost functions or their order", f"{[f.name for f in obj]} expected {list(m.fn)}"):
        return False
    if not chk(list(obj.optim_vars) == list(m.ov) and ident(obj.optim_vars.values()) == [id(v) for v, _ in m.ov.values()], "optimization variables",
               f"{list(obj.optim_vars)} expected {list(m.ov)}"):
        return False
    if not chk(list(obj.aux_vars) == list(m.av) and ident(obj.aux_vars.values()) == [id(v) for v, _ in m.av.values()], "auxiliary variables",
               f"{list(obj.aux_vars)} expected {list(m.av)}"):
        return False
    ok = chk(obj.size() == (len(m.fn), len(m.ov)) and obj.size_cost_functions() == len(m.fn) and obj.size_variables() == len(m.ov)
             and obj.size_aux_vars() == len(m.av), "sizes", f"{obj.size()}")
    ok &= chk(obj.dim() == sum(f.dim() for f in m.fn.values()), "error dimension")
    for n, (v, fs) in m.ov.items():
        ok &= chk(ident(obj.get_functions_connected_to_optim_var(n)) == ident(fs) and ident(obj.get_functions_connected_to_optim_var(v)) == ident(fs),
                  "functions of an optimization variable", f"{n}: {[f.name for f in obj.get_functions_connected_to_optim_var(n)]} expected {[f.name for f in fs]}")
        ok &= chk(obj.has_optim_var(n) and obj.get_optim_var(n) is v and obj.has_aux_var(n) == (n in m.av), "role", n)
    for n, (v, fs) in m.av.items():
        ok &= chk(ident(obj.get_functions_connected_to_aux_var(n)) == ident(fs), "functions of an auxiliary variable",
                  f"{n}: {[f.name for f in obj.get_functions_connected_to_aux_var(n)]} expected {[f.name for f in fs]}")
        ok &= chk(obj.has_aux_var(n) and obj.get_aux_var(n) is v and obj.has_optim_var(n) == (n in m.ov), "role", n)
    for n, f in m.fn.items():
        ok &= chk(obj.has_cost_function(n) and obj.get_cost_function(n) is f, "lookup", n)
    return ok


# ------------------------------------------------------------------ one run
def run(case, ctx):
    spec = case["spec"]
    HOOK.reset()
    PLAN.reset()
    W = wd.build(spec, objective=NullObjective())
    W.dtype_name = spec["dtype"]
    mixed = bool(case.get("mixed"))
    obj = th.Objective(dtype=wd.DT[spec["dtype"]], __allow_mixed_optim_aux_vars__=mixed)
    m = Model(wd.DT[spec["dtype"]], mixed)
    layers = []  # (layer, version it was built at)
    ver = 0
    refused = erased = 0
    for i, o in enumerate(case["ops"]):
        ctx.step()
        op = o["op"]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if op in ("add", "again", "nameclash", "varclash", "dtype", "dual", "dualw", "self", "wopt"):
                f = candidate(W, m, o)
                if f is None:
                    continue
                why = m.refusal(f)
                exc = None
                v0, vec0 = obj.current_version, obj.vectorized
                try:
                    obj.add(f)
                except (ValueError, RuntimeError) as e:
                    exc = e
                if why is None:
                    if not ctx.check(exc is None, "valid-addition-refused", lambda: f"step {i} ({op}): {exc}", op=op):
                        return
                    m.add(f)
                    ver += 1
                else:
                    refused += 1
                    ctx.fault("refused_" + why)
                    if why != "again":
                        if not ctx.check(exc is not None, "invalid-addition-accepted", lambda: f"step {i} ({op}): {why}", op=op, reason=why):
                            return
                    else:
                        ctx.check(exc is None, "redundant-addition-raised", lambda: f"{exc}", op=op)
                    if why == "weight-optim-vars":
                        same = [g.name for g in obj] == list(m.fn) and list(obj.optim_vars) == list(m.ov)
                        ctx.check(same, "refused-add-changed-objective", f"step {i}: cost function kept after its addition was refused", reason=why)
                        return
                    ctx.check(obj.current_version == v0 and obj.vectorized == vec0, "refused-add-changed-version", f"step {i} ({op}, {why})", reason=why)
            elif op == "add_all":
                for n, f in W.costs.items():
                    if m.refusal(f) is None:
                        obj.add(f)
                        m.add(f)
                        ver += 1
            elif op == "erase":
                n = list(m.fn)[o["s"] % len(m.fn)] if m.fn else None
                if n is None:
                    continue
                gone = m.fn[n]
                obj.erase(n)
                m.erase(n)
                ver += 1
                erased += 1
                # variables no longer in the objective cannot be reached through it
                for v in gone.optim_vars:
                    if m.fn and v.name not in m.ov and v.name not in m.av:
                        before = v.tensor
                        obj.update({v.name: v.tensor + 1})
                        ctx.check(v.tensor is before, "erased-variable-updated", v.name)
            elif op == "erasemiss":
                v0 = obj.current_version
                obj.erase("no_such_function" if o["r"] < 3 or o["c"] in m.fn else o["c"])
                ctx.check(obj.current_version == v0, "missing-erase-changed-version", "")
            elif op == "eval":
                if m.fn:
                    evaluate(ctx, W, obj, m, o, i)
            elif op == "update" and m.fn:
                obj.update({n: x for n, x in wd.rand_inputs(spec, o["s"]).items() if (m.ov.get(n) or m.av.get(n) or (None,))[0] is W.vars.get(n, 0)})
            elif op == "vec":
                if m.fn:
                    th.Vectorize(obj)
            elif op == "copy":
                if m.fn:
                    obj, m, W = on_copy(ctx, obj, m, W)
                    layers = []
            elif op == "layer":
                if m.fn:
                    opt = th.LevenbergMarquardt(obj, linear_solver_cls=ly.solver_cls("chol"), max_iterations=1)
                    layers.append((th.TheseusLayer(opt, vectorize=bool(o["r"] % 2)), ver))
            elif op == "run":
                if layers:
                    run_layer(ctx, W, obj, m, layers[o["s"] % len(layers)], ver, o, i)
        if ctx.viol:
            return
        if not compare(ctx, obj, m, i, op):
            return
    ctx.nontriv = refused > 0 and erased > 0
    ctx.state([(o["op"], o["c"]) for o in case["ops"]], len(m.fn))
    ctx.ev(list(m.fn), list(m.ov), list(m.av), [v.tensor for v, _ in m.ov.values()])


def candidate(W, m, o):
    base = W.costs.get(o["c"])
    op = o["op"]
    uid = f"x{o['s']}"
    if op == "add":
        return base
    if op == "again":
        return list(m.fn.values())[o["s"] % len(m.fn)] if m.fn else None
    man = [v for v in W.vars.values() if isinstance(v, th.Manifold)]
    optim = [W.vars[v["n"]] for v in W.spec["vars"] if v["role"] == "o" and v["n"] in W.vars]
    x = optim[o["s"] % len(optim)]
    a = x.copy(new_name="aux_" + uid)
    w = th.ScaleCostWeight(1.0, name="w_" + uid)
    w.to(dtype=m.dtype)
    if op == "nameclash":
        return th.Local(x, a, w, name=(list(m.fn)[o["s"] % len(m.fn)] if m.fn and o["r"] else o["c"]))
    if op == "varclash":
        y = x.copy(new_name=x.name)
        if o["r"] % 3 == 0:
            return th.Local(y, a, w, name="f_" + uid)
        if o["r"] % 3 == 1:
            vs = [v for v in W.vars.values() if type(v) is th.Variable]
            if not vs:
                return None
            s = vs[o["s"] % len(vs)]
            w = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=m.dtype), name=s.name), name="w_" + uid)
            return th.Local(x, a, w, name="f_" + uid)
        n = man[o["s"] % len(man)].name
        return th.Local(x, x.copy(new_name=n), w, name="f_" + uid) if n != x.name else None
    if op == "dtype":
        other = torch.float32 if m.dtype == torch.float64 else torch.float64
        if o["r"] % 2:
            w = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=other), name="s_" + uid), name="w_" + uid)
            return th.Local(x, a, w, name="f_" + uid)
        y = th.Vector(tensor=torch.zeros(1, 2, dtype=other), name="v_" + uid)
        try:
            return th.Local(y, y.copy(new_name="a_" + uid), w, name="f_" + uid)
        except ValueError:
            return None
    if op == "dual":
        # an optimization variable of some other function as target, or a target as optimization variable
        same = [v for v in man if type(v) is type(x) and v is not x and v.dof() == x.dof()]
        if not same:
            return None
        y = same[o["s"] % len(same)]
        return th.Local(x, y, w, name="f_" + uid) if o["r"] % 2 else th.Local(y, x, w, name="f_" + uid)
    if op == "dualw":
        s = th.Vector(tensor=torch.ones(1, 1, dtype=m.dtype), name="v_" + uid)
        w = th.ScaleCostWeight(s, name="w_" + uid)
        return th.Local(s, s.copy(new_name="a_" + uid), w, name="f_" + uid)
    if op == "self":
        return th.Between(x, x.copy(new_name=x.name), a, w, name="f_" + uid)
    if op == "wopt":
        s = th.Vector(tensor=torch.ones(1, 1, dtype=m.dtype), name="v_" + uid)
        return th.Local(x, a, OptWeight(s, name="w_" + uid), name="f_" + uid)


def fresh(m):
    """an objective built from scratch from the model's functions"""
    ref = th.Objective(dtype=m.dtype, __allow_mixed_optim_aux_vars__=m.mixed)
    for f in m.fn.values():
        ref.add(f)
    ref.update()
    return ref


def evaluate(ctx, W, obj, m, o, i):
    def real():
        with torch.set_grad_enabled(o["g"]):
            obj.update()
            return obj.error()

    e, exc = hist.guarded(ctx, o.get("f"), real)
    if exc is not None:
        return
    ref = fresh(m)
    with torch.no_grad():
        r = ref.error()
    ctx.check(wd.close(e, r), "error-differs", lambda: f"step {i}: {wd.diff(e, r)}")


def on_copy(ctx, obj, m, W):
    c = obj.copy()
    m2 = Model(m.dtype, m.mixed)
    for n in m.fn:
        f = c.get_cost_function(n)
        if f is None:
            ctx.violate("copy-lost-function", n)
            return obj, m, W
        m2.add(f)
    # continue with the copy's functions under the same names; functions not in the objective stay as they are only
    # if they do not share variables with it
    W2 = wd.World()
    W2.__dict__.update(W.__dict__)
    W2.costs = {n: f for n, f in m2.fn.items() if n in W.costs}
    ours = lambda d: {n for n, (v, _) in d.items() if W.vars.get(n) is v}
    keep = ours(m.ov) | ours(m.av)
    W2.vars = {n: v for d in (m2.ov, m2.av) for n, (v, _) in d.items() if n in keep}
    W2.spec = dict(W.spec, vars=[v for v in W.spec["vars"] if v["n"] in W2.vars])
    if not any(v["role"] == "o" for v in W2.spec["vars"]):
        return obj, m, W
    return c, m2, W2


def run_layer(ctx, W, obj, m, lv, ver, o, i):
    layer, built = lv
    PLAN.reset()
    before = {n: v.tensor for n, (v, _) in m.ov.items()}
    exc = None
    try:
        with torch.no_grad():
            vals, info = layer.forward({})
    except RuntimeError as e:
        exc = e
    if built != ver:
        ctx.probe("stale_layer_run")
        ctx.check(exc is not None and PLAN.calls == 0, "stale-layer-ran", f"step {i}: layer built at change {built}, objective at {ver}: {exc!r}")
        ctx.check(all(v.tensor is before[n] for n, (v, _) in m.ov.items()), "stale-layer-changed-variables", "")
        return
    ctx.probe("fresh_layer_run")
    if not ctx.check(exc is None, "fresh-layer-refused", lambda: f"step {i}: {exc!r}"):
        return
    if int(info.status[0].value) == -1:
        return
    # same step from the same start on an objective built from scratch
    after = {n: v.tensor for n, (v, _) in m.ov.items()}
    for n, (v, _) in m.ov.items():
        v.update(before[n])
    ref = fresh(m)
    with torch.no_grad():
        l2 = th.TheseusLayer(th.LevenbergMarquardt(ref, linear_solver_cls=th.CholeskyDenseSolver, max_iterations=1), vectorize=False)
        vals2, _ = l2.forward({})
    for n in vals2:
        x = after[n]
        ctx.check(torch.allclose(x, vals2[n], rtol=1e-3 if m.dtype == torch.float32 else 1e-6, atol=1e-3 * (1 + float(x.abs().max())) if m.dtype == torch.float32 else 1e-6 * (1 + float(x.abs().max())), equal_nan=True),
                  "layer-step-differs", lambda: f"step {i}: {n}: {wd.diff(x, vals2[n])}")


def shrink(case):
    ops = case["ops"]
    for k in range(len(ops)):
        c = dict(case)
        c["ops"] = ops[:k] + ops[k + 1:]
        yield c
    for s in wd.shrink_spec(case["spec"]):
        keep = {x["n"] for x in s["c"]}
        c = dict(case)
        c["spec"] = s
        c["ops"] = [o for o in ops if o["c"] in keep]
        if c["ops"]:
            yield c
