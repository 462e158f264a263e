"""C26 - a LieTensor holds the group element its history of operations gives."""
import numpy as np
import torch

import torchlie as lie
from torchlie.lie_tensor import euclidean_enabled

from .. import world as wd
from ..core import Rng, SimUserError
from .c13 import LineFault

RUNS = {"quick": 900, "thorough": 60000}
RULE = ("a run is a pool of up to 7 Lie tensors of both groups (batch sizes 1 and B, with and without gradients) and 5-18 operations on it: constructions, "
        "compositions, inverses, retractions, slices, copies, conversions, in-place replacement and in-place descent steps, tangent-space gradients "
        "taken immediately or after other operations, refused operations, operations inside as_euclidean, and operations "
        "interrupted before any source line of the library; after each operation the value of every tensor of the pool is compared with a model kept in "
        "float64 numpy, and unchanged ones bit for bit; non-trivial if an operation was refused or interrupted, or a gradient was taken late")
REAL = ["torchlie LieTensor, ltype and functional groups", "autograd"]
STUB = ["allocator and interrupts (before any source line of the library)"]
ASSUMPTIONS = ["rotation angles of exponentials are kept between 0.05 and 2.9 (series near zero and logs near half a turn are C16's)",
               "raw memory is not written to inside as_euclidean scopes"]
G = {"SO3": lie.SO3, "SE3": lie.SE3}
DT = {"float64": torch.float64, "float32": torch.float32}


# ------------------------------------------------------------------ model (float64 numpy, 4x4 / 3x3 matrices)
def hat(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])


def rod(w):
    a = np.linalg.norm(w)
    if a == 0:
        return np.eye(3), np.eye(3)
    K = hat(w / a)
    R = np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K
    V = np.eye(3) + (1 - np.cos(a)) / a * K + (a - np.sin(a)) / a * K @ K
    return R, V


def exp1(g, d):
    if g == "SO3":
        return rod(d)[0]
    R, V = rod(d[3:])
    T = np.eye(4)
    T[:3, :3] = R
    T[:3, 3] = V @ d[:3]
    return T


def log1(g, M):
    R = M[:3, :3]
    c = np.clip((np.trace(R) - 1) / 2, -1, 1)
    s = np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]]) / 2
    a = np.arctan2(np.linalg.norm(s), c)
    w = s if np.linalg.norm(s) < 1e-12 else s / np.linalg.norm(s) * a
    if g == "SO3":
        return w
    return np.concatenate([np.linalg.solve(rod(w)[1], M[:3, 3]), w])


def each(f, *xs):
    n = max(len(x) for x in xs)
    return np.stack([f(*[x[i if len(x) > 1 else 0] for x in xs]) for i in range(n)])


def up(g, t):
    """tensor -> stack of square matrices"""
    m = t.detach().double().numpy()
    if g == "SO3":
        return m
    o = np.tile(np.eye(4), (len(m), 1, 1))
    o[:, :3] = m
    return o


def down(g, m):
    return m if g == "SO3" else m[:, :3]


def dof(g):
    return 3 if g == "SO3" else 6


# ------------------------------------------------------------------ generation
OPS = [("new", 2), ("exp", 1.5), ("rand", 1), ("ident", 0.5), ("compose", 3), ("mul", 1), ("inv", 2), ("retract", 2), ("clone", 1), ("slice", 1.5), ("to", 0.7), ("cat", 0.7),
       ("set", 1.5), ("step", 2.5), ("log", 1), ("local", 1), ("transform", 1.2), ("jac", 1), ("hold", 1.5), ("release", 2), ("refuse", 3), ("eucl", 1.2), ("as", 0.7), ("drop", 0.7)]


def gen(rng, tier, i):
    ops = []
    for _ in range(rng.randint(5, 18)):
        o = dict(o=rng.wchoice(OPS), a=rng.randrange(64), b=rng.randrange(64), s=rng.seed_int())
        if rng.p(0.22):
            o["at"] = round(rng.random(), 5)
        ops.append(o)
    return dict(dt=rng.choice(["float64", "float64", "float32"]), B=rng.choice([1, 2, 3]), ops=[dict(o="new", a=0, b=0, s=rng.seed_int()), dict(o="new", a=0, b=0, s=rng.seed_int())] + ops)


def tangent(r, g, n):
    d = np.array([[r.gauss(0, 1) for _ in range(dof(g))] for _ in range(n)])
    for k in range(n):
        w = d[k, -3:]
        d[k, -3:] = w / np.linalg.norm(w) * r.uniform(0.05, 2.9)
    return d


# ------------------------------------------------------------------ run
class Item:
    def __init__(self, t, g, rg=False):
        self.t, self.g, self.rg = t, g, rg
        self.bits = t._t.detach().clone()


class Refused(Exception):
    pass


def run(case, ctx):
    S = Sim(case, ctx)
    for i, o in enumerate(case["ops"]):
        ctx.step()
        S.one(i, o)
        if ctx.viol:
            return
    while S.held:
        S.release(dict(o="release", s=0, a=0), "final release")
        if ctx.viol:
            return


class Sim:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.dt = DT[case["dt"]]
        self.tol = 2e-7 if case["dt"] == "float64" else 3e-3
        self.pool, self.held = [], []

    # -------- helpers
    def pick(self, k, g=None, leaf=None, n=None):
        c = [x for x in self.pool if (g is None or x.g == g) and (leaf is None or x.rg == leaf) and (n is None or len(x.bits) in (1, n) or n == 1)]
        return c[k % len(c)] if c else None

    def T(self, x):
        return torch.as_tensor(x).to(self.dt)

    def sane(self, m):
        return np.abs(m).max() < 1e3

    def check_value(self, t, g, want, what):
        ctx = self.ctx
        want = down(g, want)
        if not isinstance(t, lie.LieTensor) or t.ltype is not G[g]:
            ctx.violate("type-lost", f"{what}: {type(t).__name__} of {getattr(t, 'ltype', None)} instead of a {g} LieTensor")
        elif t.dtype != self.dt or tuple(t.shape) != want.shape:
            ctx.violate("shape-or-dtype", f"{what}: {t.dtype} {tuple(t.shape)} instead of {self.dt} {want.shape}")
        elif not np.abs(t._t.detach().double().numpy() - want).max() <= self.tol * max(1, np.abs(want).max()):
            ctx.violate("value-differs", f"{what}: {t._t.detach().tolist()} instead of {want.tolist()}")
        else:
            return True
        return False

    def unchanged(self, what, but=()):
        for k, x in enumerate(self.pool):
            if any(x is y for y in but):
                continue
            if not wd.same_bits(x.t._t.detach(), x.bits) or x.t.ltype is not G[x.g] or x.t.requires_grad != x.rg:
                self.ctx.violate("bystander-changed", f"{what} changed tensor {k} ({x.g}{', a leaf' if x.rg else ''}): {x.t._t.detach().tolist()} was {x.bits.tolist()}")
                return

    def tensor_near(self, got, want, what, tol=None):
        w = np.asarray(want)
        if tuple(got.shape) != w.shape or not np.abs(got.detach().double().numpy() - w).max() <= (tol or self.tol) * max(1, np.abs(w).max()):
            self.ctx.violate("value-differs", f"{what}: {got.detach().tolist()} instead of {w.tolist()}"[:600])

    def call(self, o, fn, what, targets=()):
        """runs fn, perhaps first interrupted at a source line; returns its result. An interrupted operation leaves every tensor
        as it was, an in-place one may have happened completely"""
        if "at" in o:
            # the number of lines is counted on a deep copy of the pool, since the operation may be in place
            keep = [(x, x.t) for x in self.pool]
            copies = {}
            for x in self.pool:
                y = lie.from_tensor(x.t._t.detach().clone(), G[x.g])
                if x.rg:
                    y.requires_grad_raw = True
                copies[id(x)] = y
            c = LineFault(0)
            try:
                for x in self.pool:
                    x.t = copies[id(x)]
                    if x.rg:
                        x.t = leaf(x.t)
                with c:
                    fn()
            except (RuntimeError, ValueError, TypeError, NotImplementedError, AssertionError):
                pass
            finally:
                for x, t in keep:
                    x.t = t
            f = LineFault(1 + int(o["at"] * c.n))
            try:
                with f:
                    fn()
            except (RuntimeError, ValueError, TypeError, NotImplementedError, AssertionError):
                if not f.fired:
                    raise
            if f.fired:
                self.ctx.fault("interrupted")
                self.ctx.nontriv = True
                self.unchanged(f"an interrupted {what}", targets)
                return None, True
            # every line ran: an in-place operation has happened
            if targets:
                return None, True
        return fn(), False

    def add(self, t, g, rg=False):
        if len(self.pool) >= 7:
            del self.pool[2]
        self.pool.append(Item(t, g, rg))

    # -------- operations
    def one(self, i, o):
        k, ctx = o["o"], self.ctx
        r = Rng(o["s"])
        g = r.choice(["SO3", "SE3"])
        a = self.pick(o["a"])
        ctx.state(k, a.g if a else None)
        what = f"op {i} {k}"
        f = getattr(self, "do_" + k)
        try:
            f(o, r, g, a, what)
        except Refused as e:
            ctx.violate("refused", f"{what} refused: {e}")
        self.unchanged(what)
        ctx.ev(i, k, [x.bits for x in self.pool[-1:]])

    def do_new(self, o, r, g, a, what):
        n = r.choice([1, self.case["B"]])
        m = each(lambda d: exp1(g, d), tangent(r, g, n))
        raw = self.T(down(g, m)).clone().contiguous()
        rg = r.p(0.4)
        way = r.choice(["call", "from", "as", "ctor"])
        mk = {"call": lambda: G[g](raw), "from": lambda: lie.from_tensor(raw, G[g]), "as": lambda: lie.as_lietensor(raw, ltype=G[g], dtype=self.dt),
              "ctor": lambda: lie.LieTensor(raw, G[g], requires_grad=rg)}[way]
        t, bad = self.call(o, mk, what + " " + way)
        if bad:
            return
        if way in ("call", "ctor"):
            raw.fill_(7.0)  # these copy
        if self.check_value(t, g, up(g, self.T(down(g, m))), what + " " + way):
            if rg and way != "ctor":
                t = leaf(t)
            self.add(t, g, rg)

    def do_exp(self, o, r, g, a, what):
        d = tangent(r, g, r.choice([1, self.case["B"]]))
        t, bad = self.call(o, lambda: G[g].exp(self.T(d)), what)
        if not bad and self.check_value(t, g, each(lambda x: exp1(g, x), self.T(d).double().numpy()), what):
            self.add(t, g)

    def do_rand(self, o, r, g, a, what):
        n, m = r.choice([1, self.case["B"]]), r.choice(["rand", "randn"])
        rg = r.p(0.3)
        fn = lambda: getattr(G[g], m)(n, generator=torch.Generator().manual_seed(o["s"]), dtype=self.dt, requires_grad=rg)  # noqa
        t, bad = self.call(o, fn, what)
        if bad:
            return
        u = fn()
        if not wd.same_bits(t._t.detach(), u._t.detach()):
            self.ctx.violate("value-differs", f"{what}: two draws from equal generators differ")
            return
        M = up(g, t._t)
        R = M[:, :3, :3]
        if np.abs(R @ R.transpose(0, 2, 1) - np.eye(3)).max() > (1e-6 if self.case["dt"] == "float64" else 1e-3) or t.requires_grad != rg:
            self.ctx.violate("value-differs", f"{what}: not a group element, or wrong gradient flag")
            return
        self.add(t, g, rg)

    def do_ident(self, o, r, g, a, what):
        n, rg = r.choice([1, self.case["B"]]), r.p(0.3)
        t, bad = self.call(o, lambda: G[g].identity(n, dtype=self.dt, requires_grad=rg), what)
        if not bad and self.check_value(t, g, np.tile(np.eye(3 if g == "SO3" else 4), (n, 1, 1)), what):
            if t.requires_grad != rg:
                self.ctx.violate("type-lost", f"{what}: gradient flag {t.requires_grad} instead of {rg}")
            self.add(t, g, rg)

    def pair(self, o, a):
        b = a and self.pick(o["b"], a.g, n=len(a.bits))
        return b

    def out(self, o, fn, g, want, what):
        """a result that joins the pool (detached from the graph)"""
        if not self.sane(want):
            return
        t, bad = self.call(o, fn, what)
        if bad:
            return
        if self.check_value(t, g, want, what):
            with lie.as_euclidean():
                raw = t._t.detach().clone()
            self.add(lie.from_tensor(raw, G[g]), g)

    def do_compose(self, o, r, g, a, what):
        b = self.pair(o, a)
        if b is None:
            return
        fn = r.choice([lambda: a.t.compose(b.t), lambda: lie.compose(a.t, b.t), lambda: a.t.jcompose(b.t)[1]])
        self.out(o, fn, a.g, each(lambda x, y: x @ y, up(a.g, a.bits), up(a.g, b.bits)), what)

    def do_mul(self, o, r, g, a, what):
        # `a * b` is what a.__mul__(b) makes of it: other.compose(self)
        b = self.pair(o, a)
        if b is None:
            return
        self.out(o, lambda: a.t * b.t, a.g, each(lambda x, y: y @ x, up(a.g, a.bits), up(a.g, b.bits)), what)

    def do_inv(self, o, r, g, a, what):
        if a is None:
            return
        fn = r.choice([lambda: a.t.inv(), lambda: lie.inv(a.t), lambda: a.t.jinv()[1]])
        self.out(o, fn, a.g, each(np.linalg.inv, up(a.g, a.bits)), what)

    def do_retract(self, o, r, g, a, what):
        if a is None:
            return
        d = self.T(tangent(r, a.g, r.choice([1, len(a.bits)])))
        keep = d.clone()
        self.out(o, lambda: a.t.retract(d), a.g, each(lambda x, y: x @ exp1(a.g, y), up(a.g, a.bits), keep.double().numpy()), what)
        if not wd.same_bits(d, keep):
            self.ctx.violate("bystander-changed", f"{what} changed its tangent vector")

    def do_clone(self, o, r, g, a, what):
        if a is None:
            return
        t, bad = self.call(o, lambda: a.t.clone(), what)
        if not bad and self.check_value(t, a.g, up(a.g, a.bits), what):
            t = lie.from_tensor(t._t.detach(), G[a.g])
            if t._t.data_ptr() == a.t._t.data_ptr():
                self.ctx.violate("value-differs", f"{what}: the copy shares memory with the original")
            self.add(t, a.g)

    def do_slice(self, o, r, g, a, what):
        if a is None:
            return
        n = len(a.bits)
        k = r.randrange(n)
        j = r.choice([k, slice(k, n), slice(0, k + 1), torch.tensor([k, 0])])
        m = up(a.g, a.bits)[[k] if isinstance(j, int) else j.tolist() if isinstance(j, torch.Tensor) else j]
        self.out(o, lambda: a.t[j], a.g, m, f"{what} {j}")

    def do_to(self, o, r, g, a, what):
        if a is None:
            return
        other = torch.float32 if self.dt == torch.float64 else torch.float64
        t, bad = self.call(o, lambda: a.t.to(other), what)
        if bad:
            return
        if not isinstance(t, lie.LieTensor) or t.ltype is not G[a.g] or t.dtype != other or not wd.same_bits(t._t.detach(), a.bits.to(other)):
            self.ctx.violate("value-differs", f"{what}: conversion to {other} gives {t}")

    def do_as(self, o, r, g, a, what):
        if a is None:
            return
        t, bad = self.call(o, lambda: lie.as_lietensor(a.t, dtype=self.dt), what)
        if not bad and t is not a.t:
            self.ctx.violate("value-differs", f"{what}: as_lietensor of a matching LieTensor is another object")

    def do_cat(self, o, r, g, a, what):
        b = self.pair(o, a)
        if b is None:
            return
        self.out(o, lambda: torch.cat([a.t, b.t, a.t]), a.g, np.concatenate([up(a.g, x.bits) for x in (a, b, a)]), what)

    def do_drop(self, o, r, g, a, what):
        if len(self.pool) > 2:
            self.pool.remove(a)

    def do_set(self, o, r, g, a, what):
        b = self.pair(o, a)
        if b is None or a is b or len(a.bits) != len(b.bits):
            return

        def fn():
            with torch.no_grad():
                a.t.set_(b.t)

        self.reads(r, a, what + " before")
        _, bad = self.call(o, fn, what, (a,))
        if bad:
            now = a.t._t.detach()
            if not (wd.same_bits(now, a.bits) or wd.same_bits(now, b.bits)):
                self.ctx.violate("half-done", f"an interrupted {what} left {now.tolist()}")
            a.bits = now.clone()
            return
        if not wd.same_bits(a.t._t.detach(), b.bits):
            self.ctx.violate("value-differs", f"{what}: {a.t._t.tolist()} after set_ to {b.bits.tolist()}")
        a.bits = b.bits.clone()
        self.reads(r, a, what + " after")

    def reads(self, r, x, what):
        """everything that can be read off a tensor, around an operation in place"""
        if self.ctx.viol:
            return
        M = up(x.g, x.bits)
        p = self.T(np.array([[0.3, -0.7, 0.5]]))
        y = self.pick(r.randrange(64), x.g, n=len(x.bits))
        with torch.no_grad():
            self.check_value(x.t.inv(), x.g, each(np.linalg.inv, M), what + " inverse")
            self.check_value(x.t.compose(y.t), x.g, each(lambda u, v: u @ v, M, up(x.g, y.bits)), what + " product")
            self.tensor_near(x.t.adj(), each(lambda m: adj(x.g, m), M), what + " adjoint")
            for un in (False, True):
                f = x.t.untransform if un else x.t.transform
                self.tensor_near(f(p), each(lambda m: point(x.g, m, p[0].double().numpy(), un), M), what + " transform")
            for got, N in ((lambda: x.t.log(), M), (lambda: x.t.local(y.t), each(lambda u, v: np.linalg.inv(u) @ v, M, up(x.g, y.bits)))):
                ang = [np.arccos(np.clip((np.trace(m[:3, :3]) - 1) / 2, -1, 1)) for m in N]
                if min(ang) > 0.02 and max(ang) < 2.95:
                    self.tensor_near(got(), each(lambda m: log1(x.g, m), N), what + " logarithm", 10 * self.tol)

    # -------- gradients
    def loss_spec(self, r, x):
        """a scalar function of x built from Lie operations with constants of the pool: (torch version, numpy version)"""
        g, n = x.g, len(x.bits)
        steps = []
        for _ in range(r.randint(0, 3)):
            c = self.pick(r.randrange(64), g, n=n)
            n = max(n, len(c.bits))
            steps.append((r.choice(["rc", "lc", "inv", "ret"]), c.bits.clone(), tangent(r, g, 1)))
        end = r.choice(["log", "tr", "un", "adj"])
        pt = np.array([[r.gauss(0, 1) for _ in range(3)]])
        w = torch.randn(997, generator=torch.Generator().manual_seed(r.seed_int()), dtype=torch.float64).numpy()

        def tv(t):
            for k, c, d in steps:
                c = lie.from_tensor(c, G[g])
                t = t.compose(c) if k == "rc" else c.compose(t) if k == "lc" else t.inv() if k == "inv" else t.retract(self.T(d))
            y = t.log() if end == "log" else t.adj() if end == "adj" else (t.transform if end == "tr" else t.untransform)(self.T(pt))
            return (y.reshape(-1) * self.T(w[: y.numel()])).sum()

        def nv(M):
            for k, c, d in steps:
                C = up(g, c)
                M = each(lambda p, q: p @ q, M, C) if k == "rc" else each(lambda p, q: p @ q, C, M) if k == "lc" else each(np.linalg.inv, M) if k == "inv" else each(lambda p, q: p @ exp1(g, q), M, d)
            if end == "log":
                y = each(lambda m: log1(g, m), M)
            elif end == "adj":
                y = each(lambda m: adj(g, m), M)
            else:
                y = each(lambda m: point(g, m, pt[0], end == "un"), M)
            n_ = y.size
            return float((y.reshape(-1) * w[:n_]).sum()), M, y

        _, M, _ = nv(up(g, x.bits))
        ang = max(np.arccos(np.clip((np.trace(m[:3, :3]) - 1) / 2, -1, 1)) for m in M)
        if end == "log" and not 0.02 < ang < 2.95 or not self.sane(M) or any(np.arccos(np.clip((np.trace(m[:3, :3]) - 1) / 2, -1, 1)) < 0.02 for m in M):
            return None
        return tv, nv

    def num_grad(self, g, bits, nv):
        M = up(g, bits)
        out = np.zeros((len(M), dof(g)))
        h = 1e-6
        for b in range(len(M)):
            for c in range(dof(g)):
                v = []
                for s in (h, -h):
                    d = np.zeros(dof(g))
                    d[c] = s
                    N = M.copy()
                    N[b] = N[b] @ exp1(g, d)
                    v.append(nv(N)[0])
                out[b, c] = (v[0] - v[1]) / (2 * h)
        return out

    def proj(self, x, grad):
        """the tangent gradient at x.bits a euclidean gradient stands for: d loss / d eps of x exp(eps)"""
        M = up(x.g, x.bits)
        E = grad.detach().double().as_subclass(torch.Tensor).numpy()
        out = np.zeros((len(M), dof(x.g)))
        for b in range(len(M)):
            for c in range(dof(x.g)):
                d = np.zeros(dof(x.g))
                d[c] = 1
                gen = np.zeros((4, 4))
                gen[:3, :3] = hat(d[-3:])
                if x.g == "SE3":
                    gen[:3, 3] = d[:3]
                else:
                    gen = gen[:3, :3]
                out[b, c] = (E[b] * (M[b] @ gen)[:3]).sum()
        return out

    def late_ok(self, want):
        return 1e-4 if self.case["dt"] == "float64" else 2e-2

    def do_hold(self, o, r, g, a, what):
        x = self.pick(o["a"], leaf=True)
        sp = x and self.loss_spec(r, x)
        if not sp or len(self.held) > 3:
            return
        y, bad = self.call(o, lambda: sp[0](x.t), what)
        if bad:
            return
        want = sp[1](up(x.g, x.bits))[0]
        if abs(float(y) - want) > 1e2 * self.tol * max(1, abs(want)):
            self.ctx.violate("value-differs", f"{what}: function value {float(y)} instead of {want}")
        self.held.append((x, x.t, x.bits.clone(), y, self.num_grad(x.g, x.bits, sp[1])))

    def do_release(self, o, r, g, a, what):
        if self.held:
            self.release(o, what)

    def release(self, o, what):
        x, t, bits, y, want = self.held.pop(o["s"] % len(self.held))
        moved = not wd.same_bits(t._t.detach(), bits)
        try:
            with torch.no_grad():
                t.grad = None
            y.backward()
            grad = t.grad
            with torch.no_grad():
                t.grad = None
        except RuntimeError as e:
            if moved and "modified by an inplace" in str(e):
                self.ctx.fault("backward_after_in_place_refused")
                return
            raise
        self.ctx.nontriv = True
        z = Item(lie.from_tensor(bits.clone(), G[x.g]), x.g)
        got = self.proj(z, grad)
        if np.abs(got - want).max() > self.late_ok(want) * max(1, np.abs(want).max()):
            self.ctx.violate("gradient-differs", f"{what}: gradient of a function of a {x.g}{' changed meanwhile' if moved else ''} {got.tolist()} instead of {want.tolist()}")

    def do_step(self, o, r, g, a, what):
        """one descent step in place, as torch optimizers do"""
        x = self.pick(o["a"], leaf=True)
        sp = x and self.loss_spec(r, x)
        if not sp:
            return
        with torch.no_grad():
            x.t.grad = None
        sp[0](x.t).backward()
        grad = x.t.grad
        eg = self.num_grad(x.g, x.bits, sp[1])
        got = self.proj(x, grad)
        if np.abs(got - eg).max() > self.late_ok(eg) * max(1, np.abs(eg).max()):
            self.ctx.violate("gradient-differs", f"{what}: {got.tolist()} instead of {eg.tolist()}")
            return
        sc = max(1e-3, np.abs(eg).max())
        lr = r.uniform(0.05, 0.6) / sc
        kind = r.choice(["add", "addcmul", "addcdiv"])
        q = self.T(np.full((1, 1, 1), r.uniform(0.5, 2.0)))

        def fn():
            with torch.no_grad():
                if kind == "add":
                    x.t.add_(grad, alpha=-lr)
                elif kind == "addcmul":
                    x.t.addcmul_(grad, q, value=-lr)
                else:
                    x.t.addcdiv_(grad, q, value=-lr)

        f = {"add": 1.0, "addcmul": float(q), "addcdiv": 1 / float(q)}[kind]
        want = each(lambda m, d: m @ exp1(x.g, -lr * f * d), up(x.g, x.bits), got)
        gb = grad.detach().as_subclass(torch.Tensor).clone()
        self.reads(r, x, what + " before")
        _, bad = self.call(o, fn, f"{what} {kind}", (x,))
        now = x.t._t.detach()
        if bad and wd.same_bits(now, x.bits):
            pass
        elif self.check_value(x.t, x.g, want, f"{what} {kind}{' interrupted' if bad else ''}"):
            if not x.t.requires_grad or not x.t.is_leaf:
                self.ctx.violate("type-lost", f"{what}: no longer a leaf that requires grad")
        if not wd.same_bits(grad.detach().as_subclass(torch.Tensor), gb):
            self.ctx.violate("bystander-changed", f"{what} changed the gradient it was given")
        x.bits = now.clone()
        self.reads(r, x, what + " after")
        with torch.no_grad():
            x.t.grad = None

    # -------- plain results
    def do_log(self, o, r, g, a, what):
        if a is None:
            return
        M = up(a.g, a.bits)
        ang = [np.arccos(np.clip((np.trace(m[:3, :3]) - 1) / 2, -1, 1)) for m in M]
        if min(ang) < 0.02 or max(ang) > 2.95:
            return
        t, bad = self.call(o, r.choice([lambda: a.t.log(), lambda: lie.log(a.t), lambda: a.t.jlog()[1]]), what)
        if not bad:
            self.tensor_near(t, each(lambda m: log1(a.g, m), M), what, 10 * self.tol)

    def do_local(self, o, r, g, a, what):
        b = self.pair(o, a)
        if b is None:
            return
        M = each(lambda x, y: np.linalg.inv(x) @ y, up(a.g, a.bits), up(a.g, b.bits))
        ang = [np.arccos(np.clip((np.trace(m[:3, :3]) - 1) / 2, -1, 1)) for m in M]
        if min(ang) < 0.02 or max(ang) > 2.95:
            return
        t, bad = self.call(o, lambda: a.t.local(b.t), what)
        if not bad:
            self.tensor_near(t, each(lambda m: log1(a.g, m), M), what, 10 * self.tol)

    def do_transform(self, o, r, g, a, what):
        if a is None:
            return
        p = self.T(np.array([[r.gauss(0, 1) for _ in range(3)] for _ in range(r.choice([1, len(a.bits)]))]))
        un = r.p(0.5)
        if un:
            fn = r.choice([lambda: a.t.untransform(p), lambda: a.t.juntransform(p)[1]])
        else:
            fn = r.choice([lambda: a.t.transform(p), lambda: a.t @ p, lambda: a.t.jtransform(p)[1]])
        t, bad = self.call(o, fn, what)
        if not bad:
            self.tensor_near(t, each(lambda m, q: point(a.g, m, q, un), up(a.g, a.bits), p.double().numpy()), what)

    def do_jac(self, o, r, g, a, what):
        b = self.pair(o, a)
        if b is None:
            return
        k = r.choice(["jinv", "jcompose", "jtransform", "juntransform", "jlog", "jexp"])
        n = max(len(a.bits), len(b.bits))
        A, B = up(a.g, a.bits), up(a.g, b.bits)
        d = dof(a.g)
        p = self.T(np.array([[r.gauss(0, 1) for _ in range(3)] for _ in range(len(a.bits))]))
        h = 1e-6

        def num(f, isg):
            """right jacobian of f at a (as a function of a tangent increment of a)"""
            out = []
            for c in range(d):
                e = np.zeros(d)
                e[c] = h
                P, Q = f(each(lambda m: m @ exp1(a.g, e), A)), f(each(lambda m: m @ exp1(a.g, -e), A))
                out.append(each(lambda u, v: log1(a.g, np.linalg.inv(v) @ u), P, Q) / (2 * h) if isg else (P - Q) / (2 * h))
            return np.stack(out, 2)

        if k == "jinv":
            fn, want = lambda: a.t.jinv()[0][0], num(lambda M: each(np.linalg.inv, M), True)
        elif k == "jcompose":
            fn, want = lambda: a.t.jcompose(b.t)[0][0], num(lambda M: each(lambda u, v: u @ v, M, B), True)
        elif k in ("jtransform", "juntransform"):
            fn = lambda: getattr(a.t, k)(p)[0][0]  # noqa
            want = num(lambda M: each(lambda m, q: point(a.g, m, q, k == "juntransform"), M, p.double().numpy()), False)
        else:
            ang = [np.arccos(np.clip((np.trace(m[:3, :3]) - 1) / 2, -1, 1)) for m in A]
            if min(ang) < 0.05 or max(ang) > 2.9:
                return
            want = num(lambda M: each(lambda m: log1(a.g, m), M), False)
            if k == "jlog":
                fn = lambda: a.t.jlog()[0][0]  # noqa
            else:
                v = self.T(each(lambda m: log1(a.g, m), A))
                fn, want = lambda: G[a.g].jexp(v)[0][0], each(np.linalg.inv, want)
        if not self.sane(want):
            return
        t, bad = self.call(o, fn, f"{what} {k}")
        if not bad:
            self.tensor_near(t, np.broadcast_to(want, tuple(t.shape)) if len(want) == 1 else want, f"{what} {k}", 1e-5 if self.case["dt"] == "float64" else 2e-2)

    # -------- refusals and scopes
    def do_refuse(self, o, r, g, a, what):
        if a is None:
            return
        other = self.pick(o["b"], "SE3" if a.g == "SO3" else "SO3")
        plain = torch.ones(a.bits.shape, dtype=self.dt)
        cases = [("add", lambda: a.t + a.t), ("mul_scalar", lambda: a.t * 2.0), ("sin", lambda: torch.sin(a.t)), ("sum", lambda: a.t.sum()), ("tuple_index", lambda: a.t[0, 0]),
                 ("add_plain", lambda: a.t.add_(plain)), ("addcmul_plain", lambda: a.t.addcmul_(plain, plain)), ("addcdiv_plain", lambda: a.t.addcdiv_(plain, plain)),
                 ("set_plain", lambda: a.t.set_(plain)), ("retract_list", lambda: a.t.retract([0.0] * dof(a.g))), ("local_plain", lambda: a.t.local(plain)),
                 ("matmul_lie", lambda: a.t @ a.t), ("jadjoint", lambda: a.t.jadjoint(a.t)), ("mul_", lambda: a.t.mul_(2.0)), ("zero_", lambda: a.t.zero_()),
                 ("bad_shape", lambda: lie.from_tensor(plain[:, :2], G[a.g])), ("bad_tangent", lambda: a.t.retract(plain.new_zeros(1, 5))),
                 ("copy_", lambda: a.t.copy_(a.t)), ("reshape", lambda: a.t.reshape(-1)), ("rand_size", lambda: G[a.g].rand("2"))]
        if other is not None:
            cases += [("compose_types", lambda: a.t.compose(other.t)), ("local_types", lambda: a.t.local(other.t)), ("set_types", lambda: a.t.set_(other.t)), ("mul_types", lambda: a.t * other.t),
                      ("cat_types", lambda: torch.cat([a.t, other.t])), ("jcompose_types", lambda: a.t.jcompose(other.t))]
        n, fn = cases[r.randrange(len(cases))]
        try:
            with torch.no_grad():
                fn()
        except (RuntimeError, ValueError, TypeError, NotImplementedError, AssertionError):
            self.ctx.fault("refused_" + n)
            self.ctx.nontriv = True
            return
        self.ctx.violate("accepted", f"{what}: {n} of {a.g} was accepted")

    def do_eucl(self, o, r, g, a, what):
        """inside as_euclidean the raw data takes part in ordinary arithmetic, and nothing of it remains outside"""
        if a is None:
            return
        k, boom, nest = r.randrange(4), r.p(0.3), r.p(0.4)
        y = None
        try:
            with lie.as_euclidean():
                if nest:
                    with lie.as_euclidean():
                        a.t + a.t
                y = [lambda: a.t + 1.0, lambda: torch.sin(a.t), lambda: a.t.sum(), lambda: a.t.reshape(-1)][k]()
                if boom:
                    raise SimUserError("in scope")
        except SimUserError:
            self.ctx.fault("error_in_euclidean_scope")
            self.ctx.nontriv = True
        if euclidean_enabled():
            self.ctx.violate("scope-leaked", f"{what}: still euclidean outside the scope")
            return
        want = [lambda t: t + 1.0, torch.sin, lambda t: t.sum(), lambda t: t.reshape(-1)][k](a.bits)
        if isinstance(y, lie.LieTensor) or not wd.same_bits(y.detach(), want):
            self.ctx.violate("value-differs", f"{what}: {type(y).__name__} {y} instead of {want}")


def leaf(t):
    u = lie.LieTensor(t._t.detach(), t.ltype, requires_grad=True)
    return u


def point(g, m, q, un):
    R, t = m[:3, :3], (m[:3, 3] if g == "SE3" else 0)
    return R.T @ (q - t) if un else R @ q + t


def adj(g, m):
    R = m[:3, :3]
    if g == "SO3":
        return R
    o = np.zeros((6, 6))
    o[:3, :3] = o[3:, 3:] = R
    o[:3, 3:] = hat(m[:3, 3]) @ R
    return o


def shrink(case):
    for i in range(len(case["ops"])):
        if len(case["ops"]) > 1:
            yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1 :])
    for i, o in enumerate(case["ops"]):
        if "at" in o:
            yield dict(case, ops=case["ops"][:i] + [{k: v for k, v in o.items() if k != "at"}] + case["ops"][i + 1 :])
    if case["B"] > 1:
        yield dict(case, B=1)
