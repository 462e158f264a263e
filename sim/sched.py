"""Deterministic thread scheduler.

Real threads, one running at a time. A thread may be preempted before any source line of the library, and before any bytecode
in the files that hold state shared between threads (sys.settrace events in files of /repo); a seeded stream decides when and to whom. The schedule is recorded as segments
[thread, lines executed] and a recorded schedule can be replayed and cut down. Locks created by library code are
scheduler-aware, so a waiting thread yields to the others instead of stopping the simulation.
"""
import gc
import sys
import threading
import time

from .core import REPO, Rng, StepBudget

PREFIX = tuple(REPO + "/" + p for p in ("theseus/", "torchlie/", "torchkin/"))
HOT = ("lie_group_check.py", "check_contexts.py", "lie_tensor.py", "geometry/utils.py", "core/variable.py", "theseus_function.py",
       "torchkin/robot.py", "xml_reflection/core.py")
_current = None  # the running Scheduler
_real_lock, _real_rlock = threading.Lock, threading.RLock
_file_kind = {}


def _kind(fn):
    k = _file_kind.get(fn)
    if k is None:
        k = 0
        if fn.startswith(PREFIX):
            k = 2 if fn.endswith(HOT) else 1
        _file_kind[fn] = k
    return k


# ------------------------------------------------------------------ locks
class SimLock:
    def __init__(self, real):
        self._l = real

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        if s is None or s.me() is None:
            return self._l.acquire(blocking, timeout)
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        while not self._l.acquire(False):
            s.lock_waits += 1
            if not s.blocked() or s.lock_waits > 20000:
                raise StepBudget("deadlock: no thread can run")
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, n):
        return getattr(self._l, n)


def _caller_in_repo():
    f = sys._getframe(2)
    return f.f_code.co_filename.startswith(PREFIX)


def patch_locks():
    """before the library is imported: locks the library itself creates are scheduler-aware"""

    def Lock():
        return SimLock(_real_lock()) if _caller_in_repo() else _real_lock()

    def RLock():
        return SimLock(_real_rlock()) if _caller_in_repo() else _real_rlock()

    threading.Lock = Lock
    threading.RLock = RLock


# ------------------------------------------------------------------ scheduler
class Scheduler:
    def __init__(self, n, seed=None, quantum=50, hot=0.0, sched=None, budget=3_000_000):
        self.n = n
        self.rng = Rng("sched", seed)
        self.quantum = quantum
        self.hot = hot
        self.replay = [list(x) for x in sched] if sched is not None else None
        self.pos = 0
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.finished = threading.Semaphore(0)
        self.left = 0
        self.cur = None
        self.segs = []
        self.lines = 0
        self.switches = 0
        self.lock_waits = 0
        self.budget = budget
        self.tids = {}
        self.err = [None] * n
        self.log = []
        self.sites = set()

    def me(self):
        return self.tids.get(threading.get_ident())

    # ---- decisions
    def _pick(self, exclude=None):
        """choose who runs next and for how many lines"""
        live = [i for i in range(self.n) if not self.done[i] and i != exclude]
        if not live:
            return None
        if self.replay is not None:
            while self.pos < len(self.replay):
                t, k = self.replay[self.pos]
                self.pos += 1
                if t < self.n and not self.done[t] and k > 0 and t != exclude:
                    self.left = k
                    return t
            self.left = 1 << 60
            return live[0]
        t = live[self.rng.randrange(len(live))]
        self.left = 1 + int(self.rng.expovariate(1.0 / self.quantum))
        return t

    def _start_seg(self, t):
        if t != self.cur:
            self.switches += 1
        self.cur = t
        self.segs.append([t, 0])

    # ---- called by the running thread
    def line(self, i, frame):
        self.lines += 1
        self.segs[-1][1] += 1
        if self.lines > self.budget:
            raise StepBudget(f"{self.lines} source lines executed")
        self.left -= 1
        if self.left > 0:
            if self.hot and self.replay is None and _kind(frame.f_code.co_filename) == 2 and self.rng.random() < self.hot:
                pass
            else:
                return
        t = self._pick()
        self._start_seg(t)
        if t != i:
            self.sites.add((frame.f_code.co_name, frame.f_lineno))
            self.sem[t].release()
            self.sem[i].acquire()

    def blocked(self):
        """the running thread cannot continue: let another one run"""
        i = self.me()
        t = self._pick(exclude=i)
        if t is None:
            return False
        self._start_seg(t)
        self.sem[t].release()
        self.sem[i].acquire()
        return True

    def _tracer(self, i):
        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                self.line(i, frame)
            return local

        def glob(frame, event, arg):
            co = frame.f_code
            k = _kind(co.co_filename)
            if k and co.co_name != "<module>":
                if k == 2:  # state shared between threads lives here: preemption between bytecodes too
                    frame.f_trace_opcodes = True
                return local
            return None

        return glob

    # ---- running
    def run(self, fns, trace=True):
        global _current
        assert len(fns) == self.n

        def body(i):
            self.tids[threading.get_ident()] = i
            self.sem[i].acquire()
            try:
                if trace:
                    sys.settrace(self._tracer(i))
                fns[i]()
            except BaseException as e:  # noqa
                self.err[i] = e
            finally:
                sys.settrace(None)
            self.done[i] = True
            t = self._pick()
            if t is None:
                self.finished.release()
            else:
                self._start_seg(t)
                self.sem[t].release()

        _current = self
        gcwas = gc.isenabled()
        gc.disable()
        old = threading.stack_size(64 << 20)
        try:
            ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(self.n)]
            for t in ths:
                t.start()
            t = self._pick()
            self._start_seg(t)
            self.sem[t].release()
            self.finished.acquire()
            for t in ths:
                t.join()
        finally:
            _current = None
            threading.stack_size(old)
            if gcwas:
                gc.enable()
        return self.err

    def schedule(self):
        out = []
        for t, k in self.segs:
            if k == 0:
                continue
            if out and out[-1][0] == t:
                out[-1][1] += k
            else:
                out.append([t, k])
        return out


def solo(fn):
    """fn in a fresh thread of its own, not scheduled"""
    s = Scheduler(1, 0)
    s.run([fn], trace=False)
    return s.err[0]


def import_all():
    import importlib
    import pkgutil

    for name in ("theseus", "torchlie", "torchkin"):
        m = importlib.import_module(name)
        for x in pkgutil.walk_packages(m.__path__, name + "."):
            if any(s in x.name for s in (".extlib", "cusolver", "baspacho", "lu_cuda", "extension")):
                continue
            try:
                importlib.import_module(x.name)
            except Exception:
                pass


def merged(sched):
    """coalesced copies of a schedule, for minimisation: each candidate removes some preemptions"""
    n = len(sched)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            # the segments [i, i+size) lose their preemptions: each thread's lines there run in one piece
            seg = sched[i : i + size]
            tot = {}
            for t, k in seg:
                tot[t] = tot.get(t, 0) + k
            if len(seg) > 1 and len(tot) < len(seg):
                yield sched[:i] + [[t, k] for t, k in tot.items()] + sched[i + size :]
        size //= 2
