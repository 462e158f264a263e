"""Programs of nested scoped modes, an executable model of them, and probes that observe behaviour only."""
import threading
import warnings

import torch
import theseus as th
import torchlie as lie
from torchlie.functional import enable_checks

from . import layers as ly, world as wd
from .core import SimInterrupt, SimUserError
from .faults import EXC, HOOK, PLAN
from theseus.geometry.utils import LieGroupTensor


# ------------------------------------------------------------------ per-thread warning capture
class _W(threading.local):
    def __init__(self):
        self.got = []


_warned = _W()


def install_warnings():
    warnings.resetwarnings()
    warnings.simplefilter("always")

    def show(message, category, filename, lineno, file=None, line=None):
        _warned.got.append(str(message))

    warnings.showwarning = show
    warnings._showwarning_orig = None  # make the module use our showwarning


# ------------------------------------------------------------------ generation
SCOPES = ["on", "off", "set", "set", "silence", "tan", "notan", "settan", "eucl", "lchk"]


def gen_scope(rng, only=None):
    k = rng.choice(only or SCOPES)
    s = dict(s=k)
    if k in ("on", "off", "set"):
        s.update(silent=rng.p(0.6), sint=rng.p(0.4))
    if k in ("set", "settan"):
        s["mode"] = rng.p(0.5)
    s["exit"] = rng.choice(["n", "n", "raise", "interrupt", "gen"])
    if k in ("on", "off", "set", "silence") and rng.p(0.25):
        s["deco"] = 1
    elif k not in ("set", "settan") and rng.p(0.2):
        s["early"] = dict(gen_scope(rng, ["on", "off", "silence", "tan", "notan", "eucl", "lchk"]), exit="n", body=[])
        s["early"].pop("early", None)
        s["early"].pop("deco", None)
    return s


def gen_tree(rng, depth=4, width=3, lib=0.35):
    out = []
    for _ in range(rng.randint(1, width)):
        x = rng.random()
        if depth > 0 and x < 0.55:
            s = gen_scope(rng)
            s["body"] = gen_tree(rng, depth - 1, width, lib)
            out.append(s)
        elif x < 0.55 + lib * 0.7:
            out.append(gen_lib(rng))
        else:
            out.append(dict(p=rng.choice(["c", "c", "t", "e", "l"]), g=rng.choice(["SO2", "SE2", "SO3", "SE3"]), strict=rng.p(0.4), s=rng.seed_int()))
    return out


def gen_lib(rng):
    k = rng.choice(["opt", "opt", "jac", "geo", "copy"])
    n = dict(lib=k, s=rng.seed_int())
    if k == "geo":
        n["g"] = rng.choice(["SE2", "SE3"])
        n["bad"] = rng.p(0.4)
        return n
    spec = wd.gen_spec(rng, nv=(1, 2), nextra=(0, 2), maxc=4, types=["SE2", "SO3", "SE3", "SO2"] if k != "jac" or rng.p(0.5) else ["Vector"],
                       dtype="float64", B=2)
    n["spec"] = spec
    if k == "opt":
        n["cfg"] = ly.gen_cfg(rng, algs=["gn", "lm", "dogleg"], max_it=rng.choice([1, 2, 3]))
        n["call"] = ly.gen_call(rng, spec, n["cfg"], B=None, modes=["unroll", "implicit", "truncated", "dlm"])
        n["fail"] = rng.choice([None, "user", "interrupt", "solver", "value", "cb"])
        n["at"] = rng.randint(1, 4)
    if k == "jac":
        n["mode"] = rng.choice(["vmap", "vmap", "dense", "loop_batch"])
        n["fail"] = rng.choice([None, "user", "interrupt", "value"])
        n["at"] = rng.randint(1, 3)
    return n


# ------------------------------------------------------------------ model
class Model:
    def __init__(self):
        self.chk, self.silent, self.sint, self.tan, self.eucl, self.lchk = True, False, False, False, False, False

    def get(self):
        return (self.chk, self.silent, self.sint, self.tan, self.eucl, self.lchk)

    def put(self, s):
        self.chk, self.silent, self.sint, self.tan, self.eucl, self.lchk = s

    def enter(self, n):
        k = n["s"]
        if k in ("on", "off", "set"):
            self.chk = {"on": True, "off": False}.get(k, n.get("mode"))
            self.silent, self.sint = n["silent"], n["sint"]
        elif k == "silence":
            self.sint = True
        elif k in ("tan", "notan", "settan"):
            self.tan = {"tan": True, "notan": False}.get(k, n.get("mode"))
        elif k == "eucl":
            self.eucl = True
        elif k == "lchk":
            self.lchk = True


def make_scope(n):
    k = n["s"]
    if k == "on":
        return th.enable_lie_group_check(n["silent"], n["sint"])
    if k == "off":
        return th.no_lie_group_check(n["silent"], n["sint"])
    if k == "set":
        return th.set_lie_group_check_enabled(n["mode"], n["silent"], n["sint"])
    if k == "silence":
        from theseus.geometry.lie_group_check import silence_internal_warnings

        return silence_internal_warnings()
    if k == "tan":
        return th.enable_lie_tangent()
    if k == "notan":
        return th.no_lie_tangent()
    if k == "settan":
        return th.set_lie_tangent_enabled(n["mode"])
    if k == "eucl":
        return lie.as_euclidean()
    if k == "lchk":
        return enable_checks()


# ------------------------------------------------------------------ probes
def bad_tensor(g, seed):
    x = wd.tensor(g, None, 2, seed, "float64").clone()
    f = 1.5 + (seed % 7) * 0.1
    if g == "SO2":
        x[0] *= f
    elif g == "SE2":
        x[0, 2:] *= f
    else:
        x[0, :, :3] *= f
    return x


def valid(g, x):
    x = x.detach()
    if g == "SO2":
        return bool(((x.norm(dim=1) - 1).abs() < 1e-6).all())
    if g == "SE2":
        return bool(((x[:, 2:].norm(dim=1) - 1).abs() < 1e-6).all())
    R = x[:, :, :3]
    e = torch.eye(3, dtype=x.dtype)
    return bool(((R @ R.transpose(1, 2) - e).abs() < 1e-5).all() and ((torch.linalg.det(R) - 1).abs() < 1e-5).all())


class Runner:
    """runs a tree in the current thread; every observation is compared with the model"""

    def __init__(self, report, rec=None, every=True):
        self.m = Model()
        self.report = report
        self.rec = rec or (lambda *a: None)
        self.every = every
        self.n = 0
        self.counts = {}

    def count(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    # ---- probes
    def probe(self, kind, g="SO3", strict=False, seed=1):
        self.n += 1
        m = self.m
        if kind == "c":
            bad = bad_tensor(g, seed)
            _warned.got = []
            try:
                x = getattr(th, g)(tensor=bad, strict_checks=strict).tensor
                out = "kept" if torch.equal(x, bad) else "normalized" if valid(g, x) else "garbled"
            except ValueError:
                out = "refused"
            w = sum("normalized" in s or "not valid" in s for s in _warned.got)
            w2 = sum("checks are disabled" in s for s in _warned.got)
            exp = ("refused" if strict else "normalized") if m.chk else "kept"
            if out != exp:
                self.report("check-mode", f"invalid {g} (strict={strict}) was {out}, expected {exp} in mode {m.get()}")
            if m.chk and not strict and bool(w) != (not m.sint):
                self.report("warning-mode", f"normalization warnings {w} with silence={m.sint}")
            if not m.chk and bool(w2) != (not m.silent):
                self.report("warning-mode", f"disabled-check warnings {w2} with silent={m.silent}")
            self.rec("c", out, w, w2)
        elif kind == "t":
            grp = getattr(th, g)(tensor=wd.tensor(g, None, 2, seed, "float64"), disable_checks=True)
            t = LieGroupTensor(grp)
            raw = t.data.clone().as_subclass(torch.Tensor)
            upd = wd.tensor("Var", None, 2, seed + 1, "float64", 0.5, tuple(raw.shape[1:]))
            try:
                with torch.no_grad():
                    t.add_(upd)
            except (RuntimeError, ValueError, TypeError, AttributeError) as e:  # (RecursionError is a RuntimeError)
                self.report("tangent-mode", f"add_ of {g} raised {type(e).__name__}: {str(e)[:200]}")
                return
            res = t.data.as_subclass(torch.Tensor)
            plain = torch.equal(res, raw + upd)
            ok = valid(g, res)
            if m.tan and (plain or not ok):
                self.report("tangent-mode", f"in tangent mode add_ of {g} was {'plain' if plain else 'invalid'}")
            if not m.tan and not plain:
                self.report("tangent-mode", f"outside tangent mode add_ of {g} was not a plain addition")
            self.rec("t", plain, res)
        elif kind == "e":
            x = lie.from_tensor(wd.tensor("SO3", None, 2, seed, "float64"), lie.SO3) if not m.lchk else lie.SO3(wd.tensor("SO3", None, 2, seed, "float64"))
            try:
                y = x + 1.0
                out = "eucl"
                if type(y) is not torch.Tensor:
                    out = "other"
            except NotImplementedError:
                out = "lie"
            exp = "eucl" if m.eucl else "lie"
            if out != exp:
                self.report("euclidean-mode", f"Lie tensor arithmetic behaved as {out}, expected {exp}")
            self.rec("e", out)
        elif kind == "l":
            bad = bad_tensor("SO3" if g not in ("SO3", "SE3") else g, seed)
            fn = lie.functional.SO3 if bad.shape[-1] == 3 else lie.functional.SE3
            try:
                fn.check_group_tensor(bad)
                out = "pass"
            except ValueError:
                out = "refused"
            exp = "refused" if m.lchk else "pass"
            if out != exp:
                self.report("lie-check-mode", f"torchlie check of an invalid tensor: {out}, expected {exp}")
            self.rec("l", out)

    def probes(self, tag):
        if not self.every:
            return
        self.probe("c", ["SO2", "SE2", "SO3", "SE3"][self.n % 4], self.n % 3 == 0, 17 + self.n)
        self.probe("t", ["SO3", "SE3"][self.n % 2], seed=3)
        self.probe("e", seed=5)
        self.probe("l", "SO3", seed=7)

    # ---- running
    def run(self, nodes):
        for n in nodes:
            if "s" in n and "body" in n:
                self.scope(n)
            elif "lib" in n:
                self.lib(n)
            else:
                self.probe(n["p"], n["g"], n["strict"], n["s"])

    def scope(self, n, made=None):
        if n.get("early") and made is None:
            # the scope object is made here, and entered inside another scope that started since
            made = make_scope(n)
            self.count("made_early")
            self.probes("made")
            o = n["early"]
            prev = self.m.get()
            with make_scope(o):
                self.m.enter(o)
                self.scope(n, made)
                self.probes("around")
            self.m.put(prev)
            self.probes("out")
            return
        prev = self.m.get()
        self.count("scope_" + n["s"])
        kind = n["exit"]

        def inside():
            self.m.enter(n)
            self.probes("in")
            self.run(n["body"])
            if kind == "raise":
                raise SimUserError("leaving the scope")
            if kind == "interrupt":
                raise SimInterrupt("leaving the scope")

        try:
            if kind == "gen":
                def g():
                    with made or make_scope(n):
                        self.m.enter(n)
                        yield 1
                        yield 2  # never reached

                it = g()
                next(it)
                self.probes("in")
                self.run(n["body"])
                it.close()
                self.count("left_by_generator_close")
            elif n.get("deco"):
                make_scope(n)(inside)()
            else:
                with made or make_scope(n):
                    inside()
        except (SimUserError, SimInterrupt) as e:
            if "leaving the scope" not in str(e):
                raise
            self.count("left_by_" + type(e).__name__)
        self.m.put(prev)
        self.probes("out")

    def lib(self, n):
        self.count("lib_" + n["lib"])
        out = None
        try:
            out = getattr(self, "lib_" + n["lib"])(n)
        except (SimUserError, SimInterrupt, ValueError, RuntimeError, NotImplementedError) as e:
            out = type(e).__name__
            self.count("lib_raised")
        self.rec("lib", n["lib"], out)
        self.probes("lib")

    def lib_opt(self, n):
        W = ly.build(n["spec"], n["cfg"], faulty=True)
        HOOK.reset()
        PLAN.reset()
        f = n["fail"]
        cb = None
        if f == "solver":
            PLAN.fail_at = {n["at"]}
        elif f == "cb":
            def cb(opt, info, delta, it):
                raise SimUserError("callback")
        elif f:
            HOOK.arm(n["at"], EXC[f])
        try:
            inp, vals, info = ly.run(W, n["call"], grad=True, callback=cb)
            return [vals[k].detach() for k in vals]
        finally:
            if HOOK.fired or PLAN.fired:
                self.count("lib_fault")
            HOOK.reset()
            PLAN.reset()

    def lib_jac(self, n):
        W = wd.build(n["spec"])
        HOOK.reset()
        v = W.vars[W.optim[0]]

        def err(optim_vars, aux_vars):
            HOOK("errfn")
            x = optim_vars[0]
            if hasattr(x, "log_map"):
                return x.compose(x).log_map() if n["s"] % 2 else x.log_map()
            return x.tensor * 2

        d = v.dof()
        if n["fail"]:
            HOOK.arm(n["at"] if n["mode"] != "vmap" else 1, EXC[n["fail"]])
        try:
            c = th.AutoDiffCostFunction([v], err, d, cost_weight=th.ScaleCostWeight(torch.ones(1, 1, dtype=v.dtype)), autograd_mode=n["mode"])
            J, e = c.jacobians()
            return [x.detach() for x in J]
        finally:
            if HOOK.fired:
                self.count("lib_fault")
            HOOK.reset()

    def lib_geo(self, n):
        x = bad_tensor(n["g"], n["s"]) if n["bad"] else wd.tensor(n["g"], None, 2, n["s"], "float64")
        with_ = getattr(th, n["g"])(tensor=x, disable_checks=True)
        out = []
        if n["g"] == "SE3":
            out = [with_.translation().tensor, with_.rotation().tensor]
        else:
            out = [with_.xy().tensor, with_.theta()]
        return out

    def lib_copy(self, n):
        W = wd.build(n["spec"])
        o = W.obj.copy()
        o.update()
        return [o.error().detach()]
