"""C25 - signed distance fields answer from their current data."""
import numpy as np
import torch
import theseus as th

from .. import world as wd

RUNS = {"quick": 1200, "thorough": 80000}
RULE = ("a run is a history of 4-14 calls on a signed distance field and collision cost functions that share its variables: data replaced (also by fields of other sizes and batches), refused "
        "replacements, variables updated in place of the data, conversions, copies, queries inside, on and outside the border; every answer is compared with a numpy "
        "bilinear model of the data in force; non-trivial if data was replaced or refused before a query")
REAL = ["SignedDistanceField2D", "Collision2D", "Variable / Point2"]
STUB = []
ASSUMPTIONS = ["points closer than 1e-9 cells to a cell border are not used (either side is correct)", "maps that are fully occupied are not used"]


def gen(rng, tier, i):
    ops = []
    for _ in range(rng.randint(4, 14)):
        k = rng.wchoice([("query", 5), ("replace", 3), ("refused", 2), ("var", 2), ("to", 0.7), ("cost", 2), ("copy_cost", 0.7), ("map", 1)])
        o = dict(k=k, s=rng.seed_int(), b=rng.choice([1, 2, 3]), h=rng.randint(2, 7), w=rng.randint(2, 7), np=rng.choice([1, 2, 5]), as_var=rng.p(0.5),
                 which=rng.choice(["origin", "cell", "sdf"]), c1=rng.p(0.3), thr=rng.choice([0.75, 0.4]))
        if k == "to":
            o["dt"] = rng.choice(["float32", "float64"])
        if k == "refused":
            o["how"] = rng.choice(["origin_type", "origin_shape", "cell_type", "cell_shape", "sdf_ndim"])
        ops.append(o)
    ops.append(dict(k="query", s=rng.seed_int(), b=2, np=4))
    return dict(s=rng.seed_int(), b=rng.choice([1, 2, 3]), h=rng.randint(2, 7), w=rng.randint(2, 7), dt=rng.choice(["float64", "float64", "float32"]),
                bv=rng.choice([0.0, 0.0, -1.5]), ops=ops)


def fields(op, b, dt):
    rs = np.random.RandomState(op["s"] % (2**31))
    D = wd.DT[dt]
    o = torch.from_numpy(rs.randn(b, 2)).to(D)
    c = torch.from_numpy(0.2 + rs.rand(b, 1)).to(D)
    if op.get("c1"):
        c = c[:, 0].clone()
    s = torch.from_numpy(rs.randn(b, op["h"], op["w"])).to(D)
    return o, c, s


def model_query(m, pts, bv):
    """pts: b x 2 x n"""
    o, c, s = [x.double().numpy() for x in m]
    c = c.reshape(-1)
    b, _, n = pts.shape
    d = np.zeros((b, n))
    J = np.zeros((b, n, 2))
    p = pts.double().numpy()
    H, Wd = s.shape[1:]
    for i in range(b):
        ci, oi, si = c[i % len(c)], o[i % len(o)], s[i % len(s)]
        for j in range(n):
            x, y = p[i, 0, j], p[i, 1, j]
            if x < oi[0] or y < oi[1] or x > oi[0] + (Wd - 1) * ci or y > oi[1] + (H - 1) * ci:
                d[i, j] = bv
                continue
            col, row = (x - oi[0]) / ci, (y - oi[1]) / ci
            l, t = int(np.floor(col)), int(np.floor(row))
            r, u = min(l + 1, Wd - 1), min(t + 1, H - 1)
            fx, fy = col - l, row - t
            d[i, j] = (1 - fy) * ((1 - fx) * si[t, l] + fx * si[t, r]) + fy * ((1 - fx) * si[u, l] + fx * si[u, r])
            J[i, j, 0] = ((1 - fy) * (si[t, r] - si[t, l]) + fy * (si[u, r] - si[u, l])) / ci
            J[i, j, 1] = ((1 - fx) * (si[u, l] - si[t, l]) + fx * (si[u, r] - si[t, r])) / ci
    return torch.from_numpy(d), torch.from_numpy(J)


def points(m, b, n, seed, dt):
    rs = np.random.RandomState(seed % (2**31))
    o, c, s = m
    H, Wd = s.shape[1:]
    cells = np.stack([rs.rand(b, n) * (Wd + 1) - 1, rs.rand(b, n) * (H + 1) - 1], 1)
    f = cells - np.floor(cells)
    cells = np.floor(cells) + np.clip(f, 0.01, 0.99)
    cc = c.double().numpy().reshape(-1)
    oo = o.double().numpy()
    p = np.stack([oo[i % len(oo)][:, None] + cells[i] * cc[i % len(cc)] for i in range(b)])
    return torch.from_numpy(p).to(wd.DT[dt])


def run(case, ctx):
    dt = case["dt"]
    o, c, s = fields(case, case["b"], dt)
    V = [th.Point2(tensor=o, name="origin"), th.Variable(c, name="cell"), th.Variable(s, name="sdf")]
    sdf = th.eb.SignedDistanceField2D(V[0], V[1], V[2], sdf_boundary_value=case["bv"])
    m = [x.clone() for x in (o, c, s)]
    held = V  # variables the field currently holds (None when it was given tensors)
    costs = []
    changed = False
    for j, op in enumerate(case["ops"]):
        ctx.step()
        k = op["k"]
        b = m[2].shape[0]
        ctx.state(k, op.get("how"), tuple(m[2].shape), dt)
        if k == "replace":
            no, nc, ns = fields(op, op["b"], dt)
            if op["as_var"]:
                held = [th.Point2(tensor=no), th.Variable(nc), th.Variable(ns)]
                sdf.update_data(held[0], held[2], held[1])
            else:
                sdf.update_data(no, ns, nc if nc.ndim == 2 else nc.view(-1, 1))
                held = None
            m = [no.clone(), nc.clone(), ns.clone()]
            changed = True
        elif k == "refused":
            no, nc, ns = fields(op, op["b"], dt)
            how = op["how"]
            if how == "origin_type":
                no = 3.0
            elif how == "origin_shape":
                no = torch.zeros(op["b"], 3, dtype=wd.DT[dt])
            elif how == "cell_type":
                nc = "big"
            elif how == "cell_shape":
                nc = th.Variable(torch.ones(op["b"], 2, dtype=wd.DT[dt]))
            else:
                ns = ns[0]
            try:
                sdf.update_data(no, ns, nc)
                ctx.violate("acceptance", f"call {j}: accepted ({how})", how=how)
                return
            except ValueError:
                ctx.fault("refused_data")
                changed = True
        elif k == "var" and held is not None:
            f = fields(dict(op, h=m[2].shape[1], w=m[2].shape[2], c1=m[1].ndim == 1), b, dt)
            i = ["origin", "cell", "sdf"].index(op["which"])
            held[i].update(f[i])
            m[i] = f[i].clone()
            changed = True
        elif k == "to":
            if held is not V or costs:
                continue
            sdf.to(wd.DT[op["dt"]])
            dt = op["dt"]
            m = [x.to(wd.DT[dt]) for x in m]
        elif k == "map":
            rs = np.random.RandomState(op["s"] % (2**31))
            occ = torch.from_numpy(rs.rand(op["b"], op["h"] + 1, op["w"] + 1)).to(wd.DT[dt])
            occ[:, 0, 0] = 0.0
            cell = 0.25 + rs.rand(op["b"] if rs.rand() < 0.7 else 1)
            f = th.eb.SignedDistanceField2D(torch.zeros(op["b"], 2, dtype=wd.DT[dt]), torch.from_numpy(cell).to(wd.DT[dt])[:, None], occupancy_map=occ, occupancy_threshold=op["thr"])
            want = brute(occ.double().numpy() > op["thr"], cell)
            got = f.sdf_data.tensor.double()
            ctx.probe("map_converted")
            ctx.check(got.shape == want.shape and bool(((got - want).abs() < 1e-5).all()), "distance-from-map", lambda: f"call {j}: {(got - want).abs().max()}")
        elif k in ("cost", "copy_cost"):
            if held is None or any(x.shape[0] not in (1, b) for x in m):
                continue
            if k == "copy_cost" and costs:
                f, own = costs[op["s"] % len(costs)]
                g = f.copy(new_name=f"c{j}")
                own2 = [x.clone() for x in (g.sdf_origin.tensor, g.sdf_cell_size.tensor, g.sdf_data.tensor)]
                costs.append((g, own2))
            else:
                if held[1].ndim == 1 or held is not V:
                    continue
                pose = th.Point2(tensor=torch.zeros(b, 2, dtype=wd.DT[dt]), name=f"p{j}")
                f = th.eb.Collision2D(pose, held[0], held[2], held[1], th.Variable(torch.full((1, 1), 0.3, dtype=wd.DT[dt]), name=f"e{j}"),
                                      th.ScaleCostWeight(torch.ones(1, 1, dtype=wd.DT[dt])), name=f"f{j}")
                costs.append((f, None))
            for f, own in costs:
                cur = own if own is not None else [v.tensor for v in V]
                bb = cur[2].shape[0]
                p = points(cur, bb, 1, op["s"], dt)[:, :, 0]
                if f.pose.shape[0] != bb:
                    continue
                f.pose.update(p)
                e = f.error()
                js, e2 = f.jacobians()
                d, J = model_query(cur, p.view(bb, 2, 1), 0.0)
                w = (0.3 - d).clamp(min=0)
                tol = 1e-9 if dt == "float64" else 1e-4
                ctx.probe("cost_evaluated")
                ctx.check(e.shape == w.shape and bool(((e.double() - w).abs() <= tol * (1 + w)).all()) and wd.close(e, e2), "cost-error",
                          lambda: f"call {j}: {e.view(-1)} expected {w.view(-1)}")
                if ctx.viol:
                    return
        elif k == "query":
            p = points(m, b, op["np"], op["s"], dt)
            keep = p.clone()
            if m[1].ndim == 1:
                pass
            if any(x.shape[0] not in (1, b) for x in m):
                continue
            d, J = sdf.signed_distance(p)
            wd_, wJ = model_query(m, p, case["bv"])
            ctx.ev(j, d, J)
            ctx.nontriv |= changed
            tol = 1e-8 if dt == "float64" else 2e-3
            ctx.check(d.shape == wd_.shape and bool(((d.double() - wd_).abs() <= tol * (1 + wd_.abs())).all()), "distance",
                      lambda: f"call {j}: {d.tolist()} expected {wd_.tolist()}", dt=dt)
            ctx.check(J.shape == wJ.shape and bool(((J.double() - wJ).abs() <= 20 * tol * (1 + wJ.abs())).all()), "gradient",
                      lambda: f"call {j}: {J.tolist()} expected {wJ.tolist()}", dt=dt)
            ctx.check(wd.same_bits(p, keep), "argument-changed", "query points modified")
        if ctx.viol:
            return


def brute(occ, cell):
    """signed euclidean distance to the nearest cell of the other kind"""
    out = np.zeros(occ.shape)
    for i, o in enumerate(occ):
        c_ = cell[i % len(cell)]
        if not o.any():
            out[i] = 2 * c_ * max(o.shape)
            continue
        a, f = np.argwhere(o), np.argwhere(~o)
        for r in range(o.shape[0]):
            for c in range(o.shape[1]):
                t = f if o[r, c] else a
                dd = np.sqrt(((t - [r, c]) ** 2).sum(1)).min()
                out[i, r, c] = (-dd if o[r, c] else dd) * c_
    return torch.from_numpy(out)


def shrink(case):
    for i in range(len(case["ops"]) - 1, -1, -1):
        if len(case["ops"]) > 1:
            yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
