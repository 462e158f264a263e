"""Foundations of the simulator: one PRNG decides everything; faults and probes are counted."""
import hashlib
import json
import os
import random
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


def setup_paths():
    for p in (REPO, os.path.join(REPO, "torchlie"), os.path.join(REPO, "torchkin")):
        if os.path.isdir(p) and p not in sys.path:
            sys.path.insert(0, p)


# ---------------------------------------------------------------- PRNG
class Rng(random.Random):
    """A named, reproducible stream. Never shared between purposes."""

    def __init__(self, *key):
        h = hashlib.sha256(repr(key).encode()).digest()
        super().__init__(int.from_bytes(h[:16], "big"))

    def p(self, prob):
        return self.random() < prob

    def seed_int(self):
        return self.randrange(1 << 30)

    def wchoice(self, pairs):
        """pairs: list of (item, weight)"""
        tot = sum(w for _, w in pairs)
        x = self.random() * tot
        for it, w in pairs:
            x -= w
            if x < 0:
                return it
        return pairs[-1][0]


# ---------------------------------------------------------------- simulated failures
class SimAllocFailure(RuntimeError):
    """An injected allocation failure inside a tensor operation (CUDA/CPU OOM is a RuntimeError)."""


class SimUserError(Exception):
    """An injected exception raised by user code (cost function, callback, metric)."""


class SimSolverFailure(RuntimeError):
    """An injected linear-solver failure."""


class SimInterrupt(BaseException):
    """KeyboardInterrupt-like: not an Exception subclass."""


SIM_FAULTS = (SimAllocFailure, SimUserError, SimSolverFailure, SimInterrupt)


class CaseInvalid(Exception):
    """The (shrunk) case makes no sense; not a violation, not an error."""


class StepBudget(Exception):
    """The simulated run exceeded its step budget (reported by oracles as lack of progress)."""


# ---------------------------------------------------------------- per-run context
class Ctx:
    """Collects what happened in one simulated run."""

    def __init__(self):
        self.fired = {}
        self.probes = {}
        self.viol = []
        self.h = hashlib.sha256()
        self.fp = hashlib.sha256()
        self.steps = 0
        self.simt = 0.0
        self.nontriv = False
        self.trace = []
        self.sched = None

    def fault(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def step(self, n=1):
        self.steps += n

    def ev(self, *items):
        """event log; contributes to the determinism digest"""
        self.h.update(_norm(items))

    def state(self, *items):
        """abstract state/fingerprint of this run (distinctness measure)"""
        self.fp.update(repr(items).encode())

    def violate(self, kind, msg, **where):
        self.viol.append(dict(kind=kind, msg=str(msg)[:2000], where=where))

    def check(self, cond, kind, msg, **where):
        if not cond:
            self.violate(kind, msg() if callable(msg) else msg, **where)
        return bool(cond)

    def result(self):
        return dict(
            viol=self.viol,
            fired=self.fired,
            probes=self.probes,
            digest=self.h.hexdigest(),
            fp=self.fp.hexdigest()[:16],
            steps=self.steps,
            simt=self.simt,
            nontriv=bool(self.nontriv),
            sched=self.sched if self.viol else None,
        )


def _norm(x):
    import numpy as np

    try:
        import torch
    except ImportError:  # pragma: no cover
        torch = None
    if torch is not None and isinstance(x, torch.Tensor):
        t = x.detach()
        try:
            a = t.cpu().contiguous().numpy()
        except Exception:
            return repr(tuple(t.shape)).encode()
        return str(a.dtype).encode() + str(a.shape).encode() + a.tobytes()
    if isinstance(x, np.ndarray):
        return str(x.dtype).encode() + str(x.shape).encode() + (
            x.tobytes() if x.dtype != object else repr(x.tolist()).encode()
        )
    if isinstance(x, (list, tuple)):
        return b"(" + b",".join(_norm(i) for i in x) + b")"
    if isinstance(x, dict):
        return b"{" + b",".join(_norm(k) + b":" + _norm(v) for k, v in x.items()) + b"}"
    return repr(x).encode()


def jdump(obj, path):
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, path)
