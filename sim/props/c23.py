"""C23 - variable orderings stay consistent through every history of edits, and everything built on one uses it."""
import warnings

import torch
import theseus as th

from .. import hist, world as wd
from . import c13

RUNS = {"quick": 700, "thorough": 40000}
RULE = ("a run is a history of 4-16 edits of 1-2 orderings of one objective (append, extend, remove, refused appends and removals, edits cut short between "
        "source lines); after every edit positions, contents and completeness are compared with a reference list; complete orderings are used to build dense and "
        "sparse linearizations, retractions and optimizers whose columns are compared, block by block, with an objective built from scratch; "
        "non-trivial if an ordering that had an element removed was used")
REAL = ["VariableOrdering", "Linearization, DenseLinearization, SparseLinearization", "Objective, Vectorize", "GaussNewton with Cholesky / CHOLMOD"]
STUB = ["user cost functions and weights", "interruptions (raised between source lines of the library)"]
ASSUMPTIONS = ["an ordering is not edited while a linearization built on it is in use", "extend() keeps what it appended before a refused element, like list.extend"]


def gen(rng, tier, i):
    spec = wd.gen_spec(rng, nv=(2, 5), nextra=(0, 5), robust=0.1, dtype="float64", nasty=0)
    names = [v["n"] for v in spec["vars"] if v["role"] == "o"]
    n_ord = rng.choice([1, 1, 2])
    ops = []
    for _ in range(rng.randint(4, 16)):
        k = rng.wchoice([("append", 4), ("extend", 1.5), ("fill", 2), ("remove", 4), ("refused", 1.5), ("cut", 1), ("use", 2.5), ("use_incomplete", 0.5)])
        o = dict(k=k, q=rng.randrange(n_ord), s=rng.seed_int(), v=rng.choice(names), vs=rng.sample(names, rng.randint(1, len(names))), at=rng.randint(1, 6))
        if k == "use":
            o["how"] = rng.choice(["dense", "sparse", "retract", "gn", "gn_sparse"])
        if k == "refused":
            o["how"] = rng.choice(["foreign", "aux", "dup", "absent"])
        ops.append(o)
    for q in range(n_ord):
        ops.append(dict(k="fill", q=q, s=rng.seed_int(), v=names[0], vs=names, at=1))
        ops.append(dict(k="use", q=q, s=rng.seed_int(), v=names[0], vs=names, at=1, how=rng.choice(["dense", "sparse", "gn"])))
    return dict(spec=spec, default=[rng.p(0.5) for _ in range(n_ord)], ops=ops, vec=rng.p(0.6))


def run(case, ctx):
    W = wd.build(case["spec"], vectorize=case["vec"])
    W.obj.update()
    names = list(W.obj.optim_vars)
    orders = [th.VariableOrdering(W.obj, default_order=d) for d in case["default"]]
    model = [list(names) if d else [] for d in case["default"]]
    removed = [False] * len(orders)
    foreign = th.Vector(2, name="foreign")
    for j, op in enumerate(case["ops"]):
        ctx.step()
        q = op["q"]
        o, m = orders[q], model[q]
        v = op["v"] if op["v"] in names else names[0]
        V = W.obj.optim_vars
        k = op["k"]
        err = None
        want = None
        before = list(m)
        try:
            if k == "append":
                want = v in m
                if not want:
                    m.append(v)
                o.append(V[v])
            elif k in ("extend", "fill"):
                vs = [x for x in op["vs"] if x in names] if k == "extend" else [x for x in names if x not in m]
                if k == "fill" and op["s"] % 2:
                    vs.reverse()
                want = False
                for x in vs:
                    if x in m:
                        want = True
                        break
                    m.append(x)
                o.extend([V[x] for x in vs])
            elif k == "remove":
                want = v not in m
                if not want:
                    m.remove(v)
                    removed[q] = True
                o.remove(V[v])
            elif k == "refused":
                want = True
                how = op["how"]
                if how == "foreign":
                    o.append(foreign)
                elif how == "aux":
                    a = next(iter(W.obj.aux_vars.values()))
                    o.append(a)
                elif how == "dup":
                    if not m:
                        want = False
                    else:
                        o.append(V[m[op["s"] % len(m)]])
                else:
                    o.remove(foreign)
            elif k == "cut":  # an edit cut short, then done again by the user
                lf = c13.LineFault(op["at"])
                try:
                    with lf:
                        o.remove(V[v]) if v in m else o.append(V[v])
                except RuntimeError:
                    pass
                if lf.fired:  # the edit happened or not; orderings built anew take over
                    ctx.fault("interrupted_edit")
                    orders[q] = o = th.VariableOrdering(W.obj, default_order=False)
                    m[:] = before
                    o.extend([V[x] for x in m])
                elif v in before:
                    m.remove(v)
                    removed[q] = True
                else:
                    m.append(v)
            elif k == "use_incomplete":
                if len(m) < len(names):
                    want = True
                    th.DenseLinearization(W.obj, ordering=o)
            elif k == "use" and len(m) == len(names):
                use(ctx, case, W, o, m, op, removed[q])
        except (ValueError, KeyError) as e:
            err = e
            if k == "use":
                raise
        if want:
            ctx.fault("refused_edit")
        if want is not None and not ctx.check((err is not None) == want, "acceptance", lambda: f"call {j} {k} {v}: {err!r}, contents {before}", op=k):
            return
        ctx.ev(j, k, [x.name for x in o])
        ctx.state(k, op.get("how"), len(m), removed[q])
        for o, m in zip(orders, model):
            got = [x.name for x in o]
            if not ctx.check(got == m, "contents", lambda: f"call {j} {k}: {got}, expected {m}", op=k):
                return
            for pos, n in enumerate(m):
                try:
                    i = o.index_of(n)
                except KeyError:
                    i = None
                if not ctx.check(i == pos and o[pos] is V[n], "position", lambda: f"call {j} {k}: index_of({n}) = {i}, position {pos}", op=k):
                    return
            for n in names:
                if n not in m:
                    try:
                        o.index_of(n)
                        ctx.violate("stale-entry", f"call {j} {k}: {n} is not in the ordering but has an index", op=k)
                        return
                    except KeyError:
                        pass
            if not ctx.check(o.complete == (len(m) == len(names)), "completeness", lambda: f"call {j} {k}: complete={o.complete}, {m}", op=k):
                return
        if ctx.viol:
            return


def use(ctx, case, W, o, m, op, removed):
    ctx.nontriv |= removed
    ctx.probe("ordering_used")
    how = op["how"]
    W.obj.update(wd.rand_inputs(W.spec, op["s"]))
    T = wd.build(W.spec, tensors=wd.snapshot(W))
    T.obj.update()
    base = list(T.obj.optim_vars)
    A0, b0 = hist.linearize(T.obj)
    cols, c = {}, 0
    for n in base:
        d = T.obj.optim_vars[n].dof()
        cols[n] = list(range(c, c + d))
        c += d
    perm = [x for n in m for x in cols[n]]
    if how in ("dense", "sparse"):
        lin = (th.DenseLinearization if how == "dense" else th.SparseLinearization)(W.obj, ordering=o)
        lin.linearize()
        if how == "dense":
            A = lin.A
        else:
            A = torch.zeros_like(A0)
            for r in range(lin.num_rows):
                s, e = int(lin.A_row_ptr[r]), int(lin.A_row_ptr[r + 1])
                A[:, r, torch.as_tensor(lin.A_col_ind[s:e], dtype=torch.long)] = lin.A_val[:, s:e]
        ctx.check(wd.close(A, A0[:, :, perm], k=10), "columns", lambda: f"{how} linearization with order {m}: {wd.diff(A, A0[:, :, perm])}", how=how)
        ctx.check(wd.close(lin.b, b0, k=10), "rhs", lambda: wd.diff(lin.b, b0), how=how)
        return
    g = torch.Generator().manual_seed(op["s"] % (1 << 31))
    if how == "retract":
        delta = torch.randn(W.obj.batch_size, len(perm), generator=g, dtype=torch.float64) * 0.3
        W.obj.retract_vars_sequence(delta, o)
        c = 0
        for n in m:
            v = T.vars[n]
            d = delta[:, c : c + v.dof()]
            c += v.dof()
            with th.no_lie_group_check(silent=True):
                x = v.retract(d).tensor
            ctx.check(wd.close(W.vars[n].tensor, x, k=10), "retraction", lambda: f"{n}: {wd.diff(W.vars[n].tensor, x)}", how=how)
        return
    s = torch.linalg.svdvals(A0)
    if A0.shape[1] < A0.shape[2] or not bool(torch.isfinite(s).all()) or float(s[:, -1].min()) < 1e-3 or float(s.max()) > 1e3:
        return
    kw = dict(max_iterations=1, abs_err_tolerance=0.0, rel_err_tolerance=0.0)
    opt = th.GaussNewton(W.obj, linear_solver_cls=th.CholeskyDenseSolver if how == "gn" else th.CholmodSparseSolver,
                         linearization_kwargs=dict(ordering=o), **kw)
    ref = th.GaussNewton(T.obj, linear_solver_cls=th.LUDenseSolver, **kw)
    with torch.no_grad(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opt.optimize()
        ref.optimize()
    ctx.probe("optimizer_step_compared")
    for n in m:
        ctx.check(wd.close(W.vars[n].tensor, T.vars[n].tensor, k=1e4), "step", lambda: f"{n} with order {m}: {wd.diff(W.vars[n].tensor, T.vars[n].tensor)}", how=how)


def shrink(case):
    for i in range(len(case["ops"]) - 1, -1, -1):
        if len(case["ops"]) > 1:
            yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
    for s in wd.shrink_spec(case["spec"]):
        yield dict(case, spec=s)
