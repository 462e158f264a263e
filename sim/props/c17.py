"""C17 - answers do not depend on performance knobs."""
import copy
import json

import torch
import theseus as th

from .. import hist, layers as ly, world as wd
from ..core import Rng, SimUserError, StepBudget
from ..faults import HOOK, OpFault, PLAN

RUNS = {"quick": 220, "thorough": 20000}
RULE = ("a run is one problem and one history of 1-4 calls (any backward mode and batch size, failing solves, failing user code, allocation failures, "
        "refused inputs, evaluations and re-vectorizations in between) executed under 2-4 settings of the performance knobs: vectorization, linear solver and "
        "linearization, elimination order, registration order of cost functions, autodiff mode of user costs; every outcome, iterate, error and gradient is compared "
        "with the plainest setting, to the accuracy shown by runs with perturbed inputs; non-trivial if values were compared under a setting that "
        "differs from the plainest one")
REAL = ["TheseusLayer, nonlinear optimizers, all linear solvers available on CPU, both linearizations, variable orderings, vectorization, autodiff modes"]
STUB = ["user cost functions and weights", "linear solver failures (subclass of the real solver)", "tensor allocator"]
ASSUMPTIONS = ["double precision; calls supply every variable; results too sensitive to rounding are not compared",
               "the gradient with respect to a weight entry that is exactly zero is excluded (zero-weighted terms are masked by design when vectorized)",
               "CHOLMOD offers neither adaptive nor ellipsoidal damping, so it is only compared without them; DLM and CHOLMOD use their own fixed options"]


# ------------------------------------------------------------------ generation
def gen_variant(rng, spec, cfg):
    v = dict(vec=rng.p(0.6), solver=cfg["solver"], ord=None, cord=None, auto=None)
    sol = ["chol", "lu"] + (["cholmod", "cholmod"] if cfg["alg"] in ("gn", "lm") and not cfg.get("ellip") else [])
    v["solver"] = rng.choice(sol)
    if rng.p(0.6):
        v["ord"] = rng.seed_int()
    if rng.p(0.5):
        v["cord"] = rng.seed_int()
    if rng.p(0.6):
        v["auto"] = rng.seed_int()
    return v


def gen(rng, tier, i):
    zero = rng.choice([0, 0, 0.3])
    spec = wd.gen_spec(rng, nv=(1, 4), nextra=(1, 7), maxc=12, dtype="float64", zero=zero, prior_all=True, optb1=rng.choice([0, 0, 0.3]), optmix=rng.choice([0, 0, 0, 0.3]))
    cfg = ly.gen_cfg(rng, singular=0, max_it=rng.choice([1, 2, 3, 4, 6]), tol=rng.choice(["none", "none", "none", "loose"]))
    cfg["solver"], cfg["vec"] = "chol", False
    modes = ["unroll", "unroll", "implicit", "truncated"] + (["dlm"] if cfg["alg"] in ("gn", "lm") else [])
    calls = []
    for j in range(rng.randint(1, 4)):
        c = ly.gen_call(rng, spec, cfg, modes=modes)
        if spec["B"] == 1 or any(v["b"] == 1 and v["role"] == "o" for v in spec["vars"]):
            c["b"] = None
        if c["bm"] == "dlm":
            c["eps"] = 1e-2
        zs = {v["n"] for v in spec["vars"] if v.get("z", "none") != "none"}
        c["rg"] = [n for n in c["rg"] if n not in zs]
        c["g"] = rng.p(0.65)
        c["f"] = rng.wchoice([(None, 6), ("solver", 1.5), ("user", 0.7), ("alloc", 0.7), ("shape", 0.5), ("revec", 0.6), ("err", 0.8), ("errno", 0.6), ("lin", 1.5), ("retract", 0.8)])
        c["at"] = round(rng.random(), 4)
        if cfg["rel"] and "err" not in c["track"]:
            c["track"] = c["track"] + ["err"]
        calls.append(c)
    return dict(spec=spec, cfg=cfg, calls=calls, vs=[gen_variant(rng, spec, cfg) for _ in range(rng.randint(1, 3))])


# ------------------------------------------------------------------ one execution of the whole history
def variant_world(case, v):
    spec = case["spec"]
    cfg = dict(case["cfg"])
    if v is None:
        spec = json.loads(json.dumps(spec))
        for c in spec["c"]:
            if c["k"] == "auto":
                c["mode"] = "dense"
        return ly.build(spec, cfg, faulty=True)
    cfg.update(vec=v["vec"], solver=v["solver"])
    spec = json.loads(json.dumps(spec))
    if v["auto"] is not None:
        r = Rng("auto", v["auto"])
        for c in spec["c"]:
            if c["k"] == "auto":
                c["mode"] = r.choice(["vmap", "dense", "loop_batch"])
                c["akw"] = dict(autograd_vectorize=r.p(0.3)) if c["mode"] != "vmap" else {}
    if v["ord"] is not None:
        used = {n for c in spec["c"] for n in c["v"]}
        names = [x["n"] for x in spec["vars"] if x["role"] == "o" and x["n"] in used]
        Rng("ord", v["ord"]).shuffle(names)
        cfg["order"] = names
    idx = list(range(len(spec["c"])))
    if v["cord"] is not None:
        Rng("cord", v["cord"]).shuffle(idx)
    return ly.build(spec, cfg, faulty=True, order=idx)


def well_posed(case, i):
    """the problem of call i, at its initial values, determines its solution"""
    W = variant_world(case, None)
    W.obj.update(inp_all(ly.inputs(W, case["calls"][i])))
    try:
        with torch.no_grad():
            A, _ = hist.linearize(W.obj)
        s = torch.linalg.svdvals(A)
        return bool((s[:, -1] > 1e-3 * s[:, 0]).all()) and bool(torch.isfinite(A).all()) and A.shape[1] >= A.shape[2]
    except RuntimeError:
        return False


def perturbed(inp, eps, seed):
    if not eps:
        return inp
    g = torch.Generator().manual_seed(seed)
    out = {}
    for n, x in inp.items():
        y = x.detach() * (1 + eps * torch.randn(x.shape, generator=g, dtype=x.dtype))
        out[n] = y.requires_grad_(x.requires_grad)
    return out


def execute(case, v, eps=0.0, eseed=0, rel=1.0, stats=None):
    """list of (label, status, dict)"""
    if rel != 1.0:
        case = dict(case, cfg=dict(case["cfg"], rel=case["cfg"]["rel"] * rel))
    W = variant_world(case, v)
    out = []
    for i, call in enumerate(case["calls"]):
        PLAN.reset()
        HOOK.reset()
        f = call["f"]
        inp = perturbed(ly.inputs(W, call), eps, eseed + i)
        if f == "shape":
            names = sorted(inp)
            n = names[int(call["at"] * len(names))]
            bad = dict(inp)
            bad[n] = torch.cat([inp[n].detach()] * 2, dim=-1)
            try:
                ly.run(W, call, inp=bad, grad=call["g"])
            except (RuntimeError, ValueError):
                if stats is not None:
                    stats("refused_input")
        elif f in ("user", "alloc"):
            fail_once(W, call, inp, f, stats)
        elif f == "revec":
            th.Vectorize(W.obj) if W.cfg["vec"] else W.obj.disable_vectorization()
        PLAN.reset()
        HOOK.reset()
        if f == "solver":
            PLAN.fail_at = {1 + int(call["at"] * W.cfg["max_it"])}
        if f in ("err", "errno"):
            sub = {n: x.detach() for k, (n, x) in enumerate(sorted(inp.items())) if (k + int(call["at"] * 7)) % 2 == 0}
            e0 = squared(W, W.obj.error(inp_all(inp), also_update=True))
            rand = {n: x.detach() for n, x in perturbed(ly.inputs(W, dict(call, s=call["s"] + 1)), eps, eseed).items() if n in sub}
            e1 = squared(W, W.obj.error(rand, also_update=f == "err"))
            e2 = squared(W, W.obj.error())
            out.append((f"call {i} errors", "ok", dict(e0=e0, e1=e1, e2=e2)))
        try:
            _, vals, info = ly.run(W, call, grad=call["g"], inp=inp)
            d = {"val." + n: vals[n].detach() for n in sorted(vals)}
            fi = ly.flat_info(info)
            fi = {n: x for n, x in fi.items() if n in ("status", "converged_iter", "best_err", "last_err", "err_history") or n.startswith("state_history")}
            d.update({"info." + n: x for n, x in fi.items()})
            if call["g"] and call["rg"]:
                g = ly.grads_of(inp, {n: vals[n] for n in sorted(vals)}, call["s"])
                for n in call["rg"]:  # no gradient at all counts as zero
                    if n in inp:
                        d["grad." + n] = g[n] if n in g else torch.zeros_like(inp[n])
            with torch.no_grad():
                d["sq"] = squared(W, W.obj.error())
            out.append((f"call {i} ({call['bm']})", "ok", d))
        except RuntimeError as e:
            out.append((f"call {i} ({call['bm']})", "raise", {}))
        if stats is not None and f == "solver" and PLAN.fired.get("solver_failure"):
            stats("linear_solver_failure")
        PLAN.reset()
        if f == "lin":
            out.append((f"linearization after call {i}", "ok", lin_probe(W, case, call, inp)))
        if f == "retract":
            out.append((f"retraction after call {i}", "ok", retract_probe(W, call, inp)))
    return out


def inp_all(inp):
    return {n: x.detach() for n, x in inp.items()}


def squared(W, e):
    """per cost function, whatever the registration order: squared norms in the order of the specification"""
    e = e.detach()
    d = {}
    k = 0
    for f in W.obj.cost_functions.values():
        d[f.name] = (e[:, k : k + f.dim()] ** 2).sum(1)
        k += f.dim()
    return torch.stack([d[c["n"]] for c in W.spec["c"]], 1)


def fail_once(W, call, inp, f, stats):
    ip = {n: x.detach().clone().requires_grad_(x.requires_grad) for n, x in inp.items()}

    def go():
        ly.run(W, call, grad=call["g"], inp=ip)

    if f == "alloc":
        m = OpFault(1 + int(call["at"] * 300))
        try:
            with m:
                go()
        except RuntimeError:
            pass
        if m.fired and stats is not None:
            stats("alloc_failure_in_call")
    else:
        HOOK.arm(1 + int(call["at"] * 8), SimUserError)
        try:
            go()
        except (SimUserError, RuntimeError):
            pass
        if HOOK.fired and stats is not None:
            stats("user_code_raises")


def spread(W, ordering, vec, names):
    """vector over the columns of an ordering -> concatenated over names"""
    pos, k = {}, 0
    for v in ordering:
        pos[v.name] = (k, k + v.dof())
        k += v.dof()
    return torch.cat([vec[:, pos[n][0] : pos[n][1]] for n in names], 1)


def collect(W, ordering, vec, names):
    pos, k = {}, 0
    for n in names:
        d = W.obj.optim_vars[n].dof()
        pos[n] = (k, k + d)
        k += d
    return torch.cat([vec[:, pos[v.name][0] : pos[v.name][1]] for v in ordering], 1)


def names_of(W):
    return sorted(W.obj.optim_vars)


def rows(W, e):
    d, k = {}, 0
    for f in W.obj.cost_functions.values():
        d[f.name] = e[:, k : k + f.dim()]
        k += f.dim()
    return torch.cat([d[c["n"]] for c in W.spec["c"]], 1)


def lin_probe(W, case, call, inp):
    """the linearization object of the layer, through its public operations"""
    W.obj.update(inp_all(inp))
    names = names_of(W)
    lin = W.opt.linear_solver.linearization
    out = {}
    other = {m: x.detach() for m, x in ly.inputs(W, dict(call, s=call["s"] + 7)).items()}
    with torch.no_grad():
        for again, values in enumerate((inp_all(inp), other)):
            W.obj.update(values)
            lin.linearize()
            B = W.obj.batch_size
            n = sum(W.obj.optim_vars[m].dof() for m in names)
            g = torch.Generator().manual_seed(call["s"])
            v = torch.randn(B, n, generator=g, dtype=torch.float64)
            for again2 in range(2):
                w = collect(W, lin.ordering, v * (1 + again2), names)
                out[f"Av{again}{again2}"] = rows(W, lin.Av(w))
                out[f"Atb{again}{again2}"] = spread(W, lin.ordering, lin.Atb.squeeze(2), names)
                out[f"diag{again}{again2}"] = spread(W, lin.ordering, lin.diagonal_scaling(w), names)
        out["b"] = rows(W, lin.b)
        out["num"] = torch.tensor([lin.num_rows, lin.num_cols])
    return out


def retract_probe(W, call, inp):
    W.obj.update(inp_all(inp))
    names = names_of(W)
    order = W.opt.linear_solver.linearization.ordering
    B = W.obj.batch_size
    n = sum(W.obj.optim_vars[m].dof() for m in names)
    g = torch.Generator().manual_seed(call["s"] + 5)
    v = 0.3 * torch.randn(B, n, generator=g, dtype=torch.float64)
    mask = torch.rand(B, generator=g) < 0.4
    kw = {}
    if call["at"] < 0.5:
        kw = dict(ignore_mask=mask, force_update=call["at"] < 0.15)
    with torch.no_grad():
        W.obj.retract_vars_sequence(collect(W, order, v, names), order, **kw)
        return {"x." + m: W.obj.optim_vars[m].tensor.detach().clone() for m in names}


# ------------------------------------------------------------------ comparison
def dist(a, b):
    """largest difference relative to the size of b; inf if shapes, dtypes or non-finite entries differ"""
    if a.shape != b.shape or a.dtype != b.dtype:
        return float("inf")
    if a.numel() == 0:
        return 0.0
    a, b = a.double(), b.double()
    fa, fb = torch.isfinite(a), torch.isfinite(b)
    if not bool((fa == fb).all()):
        return float("inf")
    m = fb
    if not bool(m.any()):
        return 0.0
    return float((a[m] - b[m]).abs().max() / (1 + b[m].abs().max()))


DISCRETE = ("info.status", "info.converged_iter", "num")


def run(case, ctx):
    spec = case["spec"]
    HOOK.reset()
    PLAN.reset()
    base = execute(case, None)
    ctx.step(len(base))
    ctx.ev([(x[0], x[1]) for x in base])
    pert = [execute(case, None, eps=1e-11, eseed=k * 100 + 1) for k in range(2)]
    if case["cfg"]["rel"]:
        pert += [execute(case, None, rel=x) for x in (1 - 1e-5, 1 + 1e-5)]
    skip, sens = set(), {}
    ill = {i for i in range(len(case["calls"])) if not well_posed(case, i)}
    for k, (lab, st, d) in enumerate(base):
        if lab.startswith("call") and int(lab.split()[1]) in ill:
            ctx.probe("ill_posed_skipped")
            skip.add(k)
            continue
        h = d.get("info.err_history")
        if case["cfg"]["rel"] and h is not None and bool((h < 1e-10 * (1 + h[:, :1])).any()):
            ctx.probe("converged_to_rounding_skipped")
            skip.add(k)
            continue
        for p in pert:
            if p[k][1] != st or set(p[k][2]) != set(d):
                skip.add(k)
                continue
            for n in d:
                x = dist(p[k][2][n], d[n])
                if n in DISCRETE and x:
                    skip.add(k)
                sens[k, n] = max(sens.get((k, n), 0.0), x)
        if st == "ok" and case["cfg"]["alg"] in ("lma", "dogleg"):
            if undecided(d):
                ctx.probe("accept_decision_within_rounding")
                for n in d:
                    if n.startswith("grad"):
                        sens[k, n] = 1.0
        ctx.state(lab, st, case["cfg"]["alg"])
    for v in case["vs"]:
        got = execute(case, v, stats=ctx.fault)
        ctx.step(len(got))
        ctx.state(v["vec"], v["solver"], v["ord"] is not None, v["cord"] is not None, v["auto"] is not None, wd.describe(spec))
        for k, ((lab, st, d), (l2, s2, e)) in enumerate(zip(base, got)):
            if k in skip:
                ctx.probe("too_sensitive_skipped")
                continue
            where = dict(vec=v["vec"], solver=v["solver"], order=v["ord"] is not None, registration=v["cord"] is not None, auto=v["auto"] is not None, alg=case["cfg"]["alg"])
            if st != s2:
                ctx.violate("outcome-differs", f"{lab}: {s2} under {where}, {st} under the plainest setting", **where)
                return
            if set(d) != set(e):
                ctx.violate("keys-differ", f"{lab}: {sorted(set(d) ^ set(e))} under {where}", **where)
                return
            for n in d:
                s = sens.get((k, n), 0.0)
                tol = 1e-10 + 10 * s if lab.startswith("linearization") else 1e-7 + 1e4 * s  # (inputs were perturbed by 1e-11)
                if s > 1e-7 or not s == s:
                    ctx.probe("too_sensitive_skipped")
                    continue
                x = dist(e[n], d[n])
                if n in DISCRETE and x == 0:
                    continue
                if not x <= tol:
                    ctx.violate("result-differs", f"{lab}: {n} differs by {x:.3g} (accuracy {tol:.1g}) under {where}", what=n.split(".")[0], **where)
                    return
            if d:
                ctx.nontriv = True


def undecided(d):
    """some iteration changed the error so little that accepting it is a matter of rounding"""
    h = d.get("info.err_history")
    if h is None:
        return "info.best_err" in d
    h = h.double()
    a, b = h[:, :-1], h[:, 1:]
    m = torch.isfinite(a) & torch.isfinite(b)
    if not bool(m.any()):
        return False
    r = ((a - b).abs() / (a.abs() + 1e-12))[m]
    return bool((r < 1e-7).any())


def shrink(case):
    for c in shrink0(case):
        if all(well_posed(c, i) for i in range(len(c["calls"]))):
            yield c


def shrink0(case):
    for i in range(len(case["calls"])):
        if len(case["calls"]) > 1:
            c = copy.deepcopy(case)
            del c["calls"][i]
            yield c
    if len(case["vs"]) > 1:
        for i in range(len(case["vs"])):
            c = copy.deepcopy(case)
            del c["vs"][i]
            yield c
    for i, v in enumerate(case["vs"]):
        for key, off in (("ord", None), ("cord", None), ("auto", None), ("solver", "chol"), ("vec", False)):
            if v[key] != off:
                c = copy.deepcopy(case)
                c["vs"][i][key] = off
                yield c
    for i, x in enumerate(case["calls"]):
        if x["f"]:
            c = copy.deepcopy(case)
            c["calls"][i]["f"] = None
            yield c
    yield from ly.shrink(case)
