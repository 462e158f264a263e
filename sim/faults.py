"""Fault seams.

* OpFault      - every tensor operation is a seam (torch dispatch mode); the k-th one may fail to allocate.
* HOOK         - every call into harness-owned user code (cost functions, error functions, weights, callbacks)
                 passes here; the k-th one may raise.
* Solver mixin - harness subclasses of the linear solvers: the k-th solve may fail, be scaled or go non-finite.
"""
import threading

import torch
from torch.utils._python_dispatch import TorchDispatchMode

from .core import SimAllocFailure, SimInterrupt, SimUserError, StepBudget


class OpFault(TorchDispatchMode):
    """counts tensor ops; raises at op number `at` (1-based). at<=0 only counts."""

    def __init__(self, at=0, exc=SimAllocFailure, budget=400000):
        super().__init__()
        self.n = 0
        self.at = at
        self.exc = exc
        self.fired = False
        self.budget = budget

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        self.n += 1
        if self.n == self.at:
            self.fired = True
            raise self.exc(f"[sim] allocation failure at tensor op {self.n} ({func})")
        if self.n > self.budget:
            raise StepBudget(f"{self.n} tensor ops")
        with torch._C.DisableTorchFunctionSubclass():  # the operator itself, also on tensor subclasses
            return func(*args, **(kwargs or {}))


class Hook(threading.local):
    """user-code seam; one per thread, reset per run"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.n = 0
        self.at = 0
        self.exc = SimUserError
        self.only = None
        self.fired = False
        self.observer = None

    def arm(self, at, exc=SimUserError, only=None):
        self.n = 0
        self.at = at
        self.exc = exc
        self.only = only
        self.fired = False

    def disarm(self):
        self.at = 0

    def __call__(self, site):
        if self.observer is not None:
            self.observer(site)
        if self.only is not None and site not in self.only:
            return
        self.n += 1
        if self.at and self.n == self.at:
            self.fired = True
            raise self.exc(f"[sim] user code failure at call {self.n} ({site})")


HOOK = Hook()
EXC = {"user": SimUserError, "alloc": SimAllocFailure, "interrupt": SimInterrupt, "runtime": RuntimeError, "value": ValueError, "notimpl": NotImplementedError}


class SolverPlan(threading.local):
    """shared by the harness solver subclasses; one per thread"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.calls = 0
        self.fail_at = set()
        self.scale_at = {}
        self.nan_at = {}
        self.fired = {}
        self.budget = 100000
        self.failed = 0
        self.outcomes = []
        self.dampings = []
        self.linalg = False
        self.observer = None
        self.garbage = []
        self.verified = 0
        self.expect_failures = True

    def before(self):
        self.calls += 1
        if self.observer is not None:
            self.observer(self.calls)
        if self.calls > self.budget:
            raise StepBudget(f"{self.calls} solves")
        if self.calls in self.fail_at:
            self.fired["solver_failure"] = self.fired.get("solver_failure", 0) + 1
            cls = torch.linalg.LinAlgError if self.linalg else RuntimeError
            raise cls(f"[sim] linear solver failure at solve {self.calls}")

    def after(self, delta):
        s = self.scale_at.get(self.calls)
        if s is not None:
            self.fired["delta_scaled"] = self.fired.get("delta_scaled", 0) + 1
            if isinstance(s, list):
                sc = torch.tensor([s[i % len(s)] for i in range(delta.shape[0])], dtype=delta.dtype).view(-1, 1)
                delta = delta * sc
            else:
                delta = delta * s
        el = self.nan_at.get(self.calls)
        if el is not None:
            self.fired["delta_nan"] = self.fired.get("delta_nan", 0) + 1
            delta = delta.clone()
            delta[el % delta.shape[0]] = float("nan")
        return delta


def normal_equations(solver, k):
    """A, b, A'A and the damped A'A of the solve, in float64, and the dtype of the system"""
    lin = solver.linearization
    if hasattr(lin, "A_val"):
        B = lin.A_val.shape[0]
        A = torch.zeros(B, lin.num_rows, lin.num_cols, dtype=lin.A_val.dtype)
        for r in range(lin.num_rows):
            s, e = int(lin.A_row_ptr[r]), int(lin.A_row_ptr[r + 1])
            A[:, r, torch.as_tensor(lin.A_col_ind[s:e], dtype=torch.long)] = lin.A_val[:, s:e].detach()
    else:
        A = lin.A.detach()
    dt = A.dtype
    A, b = A.double(), lin.b.detach().double()
    M = M0 = A.transpose(1, 2) @ A
    d = k.get("damping")
    if d is not None:
        d = torch.as_tensor(d).detach().double().reshape(-1, 1)
        D = d.expand(M.shape[0], M.shape[1])
        if k.get("ellipsoidal_damping", not hasattr(lin, "A_val")) and not hasattr(lin, "A_val"):
            D = d * M.diagonal(dim1=1, dim2=2) + k.get("damping_eps", 1e-8)
        M = M + torch.diag_embed(D)
    elif hasattr(lin, "A_val") and getattr(solver, "_damping", 0.0):
        M = M + solver._damping * torch.eye(M.shape[1], dtype=M.dtype)
    return A, b, M0, M, dt


def verify_failure(solver, e, k):
    """A solve fails only if some element's system is singular, ill-conditioned or not finite."""
    with torch.no_grad():
        A, b, M0, M, dt = normal_equations(solver, k)
        if not (torch.isfinite(M).all() and torch.isfinite(b).all()):
            return
        s = torch.linalg.svdvals(M)
        if bool((s[:, -1] > (1e-7 if dt == torch.float64 else 1e-3) * s[:, 0]).all()) and bool((s[:, -1] > 1e-12).all()) and bool((s[:, 0] < 1e12).all()):
            PLAN.garbage.append(f"solve {PLAN.calls} failed on a well-conditioned system (singular values {s[:, -1].tolist()} to {s[:, 0].tolist()}): {type(e).__name__}: {e}"[:300])


def verify_solution(solver, x, k):
    """A solve that does not fail returns the solution of the (damped) normal equations: small residual for every element of
    the batch whose system is finite. Elements reported as singular (check_singular) are zero."""
    with torch.no_grad():
        A, b, M0, M, dt = normal_equations(solver, k)
        x = x.detach().double()
        g = (A.transpose(1, 2) @ b.unsqueeze(2)).squeeze(2)
        tol = 1e-6 if dt == torch.float64 else 2e-3
        for j in range(x.shape[0]):
            if not bool(torch.isfinite(M[j]).all() & torch.isfinite(g[j]).all()) or float(M[j].abs().max()) > 1e12:
                continue
            PLAN.verified += 1
            if getattr(solver, "_check_singular", False) and not bool(x[j].any()) and bool(torch.isfinite(x[j]).all()):
                s = torch.linalg.svdvals(M0[j])
                if float(s[-1]) <= 1e-5 * float(s[0]) or float(g[j].abs().max()) == 0:
                    continue
            r = float((M[j] @ x[j] - g[j]).norm())
            ref = float(M[j].norm() * x[j].norm() + A[j].norm() * b[j].norm())
            if not r <= tol * ref + 1e-30:
                PLAN.garbage.append(f"solve {PLAN.calls}, element {j}: residual {r:.3g} of the normal equations, scale {ref:.3g}")


PLAN = SolverPlan()
_cls_cache = {}


def solver_cls(kind):
    """Harness subclass of a real solver; the real solve() does the work."""
    import theseus as th

    if kind not in _cls_cache:
        base = {"chol": th.CholeskyDenseSolver, "lu": th.LUDenseSolver, "cholmod": th.CholmodSparseSolver}[kind]

        class Faulty(base):
            def solve(self, *a, **k):
                ok = False
                d = k.get("damping")
                PLAN.dampings.append(d.detach().clone() if isinstance(d, torch.Tensor) else d)
                try:
                    PLAN.before()
                    x = super().solve(*a, **k)
                    ok = True
                    verify_solution(self, x, k)
                except RuntimeError as e:
                    if not ok and PLAN.calls not in PLAN.fail_at and PLAN.expect_failures is False:
                        verify_failure(self, e, k)
                    raise
                finally:
                    PLAN.outcomes.append((PLAN.calls, ok))
                    PLAN.failed += not ok
                return PLAN.after(x)

        Faulty.__name__ = "Sim" + base.__name__
        _cls_cache[kind] = Faulty
    return _cls_cache[kind]
