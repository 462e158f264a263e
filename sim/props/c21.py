"""C21 - timing statistics follow the clock and survive failures."""
import time

import torch
import theseus.utils.utils as tu
from theseus.utils import Timer

from ..core import Rng, SimInterrupt, SimUserError

RUNS = {"quick": 1500, "thorough": 120000}
RULE = ("a run is 1-3 timers (CPU, or GPU with simulated events) and 4-30 sections (with-blocks and start/end pairs, labelled or not, deactivated, on "
        "inactive timers, left by exceptions, interrupts, generator close or abandoned between start and end) under simulated clocks that advance, stall "
        "and jump; after every section the statistics and the last elapsed time are compared with a reference; non-trivial if at least one "
        "section was recorded after one that was left abnormally or deactivated")
REAL = ["theseus.utils.Timer"]
STUB = ["clocks (perf_counter, monotonic, time, process_time)", "torch.cuda events and synchronize (simulated device queue)"]
ASSUMPTIONS = ["the sections of one timer follow one another (they are not nested), and every end() follows a start()",
               "a with-block names its label by calling the timer; a bare with-block is only used on timers without labels or abandoned sections"]


class World:
    """simulated clocks: time that passes while working, while stalled, and jumps of the wall clock"""

    def __init__(self):
        self.work = 5_000_000_000  # ns
        self.stall = 0
        self.jump = 0
        self.gpu_free = 0  # when the device has finished everything queued so far
        self.synced = 0

    def mono(self):
        return self.work + self.stall

    def advance(self, ns, kind):
        if kind == "work":
            self.work += ns
        elif kind == "stall":
            self.stall += ns
        elif kind == "jump":
            self.jump += ns
        elif kind == "gpu":
            self.gpu_free = max(self.gpu_free, self.mono()) + ns

    def patch(self):
        m, w, c = self.mono, lambda: self.mono() + self.jump, lambda: self.work
        names = {}
        for n, f in (("perf_counter", m), ("monotonic", m), ("time", w), ("process_time", c), ("thread_time", c)):
            names[n + "_ns"] = f
            names[n] = (lambda f: lambda: f() / 1e9)(f)
        old = {n: getattr(time, n) for n in names}
        saved = []
        for n, f in names.items():
            for k, v in list(vars(tu).items()):  # names imported directly
                if v is old[n]:
                    saved.append((tu, k, v))
                    setattr(tu, k, f)
            saved.append((time, n, old[n]))
            setattr(time, n, f)
        world = self

        class Event:
            def __init__(self, enable_timing=False, **k):
                self.timing, self.t = enable_timing, None

            def record(self, *a):
                self.t = max(world.gpu_free, world.mono())

            def synchronize(self):
                world.sync()

            def query(self):
                return self.t is not None and self.t <= world.mono()

            def elapsed_time(self, other):
                if self.t is None or other.t is None or not (self.timing and other.timing):
                    raise RuntimeError("events were not recorded with timing")
                if max(self.t, other.t) > world.mono():
                    raise RuntimeError("device not ready")
                return (other.t - self.t) / 1e6

        saved += [(torch.cuda, "Event", torch.cuda.Event), (torch.cuda, "synchronize", torch.cuda.synchronize)]
        torch.cuda.Event, torch.cuda.synchronize = Event, lambda *a: self.sync()
        return saved

    def sync(self):
        if self.gpu_free > self.mono():
            self.stall += self.gpu_free - self.mono()


# ------------------------------------------------------------------ generation
LABELS = ["a", "b", "forward", ""]


def gen(rng, tier, i):
    timers = [dict(dev=rng.choice(["cpu", "cpu", "cuda:0"]), active=rng.p(0.8), plain=rng.p(0.25)) for _ in range(rng.randint(1, 3))]
    ops = []
    for _ in range(rng.randint(4, 30)):
        ops.append(dict(t=rng.randrange(len(timers)), how=rng.choice(["with", "with", "with", "pair", "pair", "pairnone", "abandon", "active", "gen", "bare", "decor"]),
                        label=rng.choice(LABELS + [None]), off=rng.p(0.25), exit=rng.wchoice([("ok", 5), ("user", 2), ("interrupt", 1), ("return", 1), ("break", 1)]),
                        body=[(rng.choice(["work", "work", "stall", "jump", "gpu"]), rng.choice([0, 1, 999, 10**3, 10**6, 10**9, 7 * 10**12]) * rng.choice([1, 1, 3])) for _ in range(rng.randint(0, 4))],
                        other=rng.randrange(len(timers)), v=rng.p(0.5)))
    return dict(timers=timers, ops=ops)


def run(case, ctx):
    w = World()
    saved = w.patch()
    try:
        _run(case, ctx, w)
    finally:
        for o, n, v in reversed(saved):
            setattr(o, n, v)


def _run(case, ctx, w):
    T = [Timer(t["dev"], active=t["active"]) for t in case["timers"]]
    M = [dict(active=t["active"], stats={}, last=0.0) for t in case["timers"]]
    odd = [False] * len(T)
    left = [False] * len(T)

    def body(o):
        for k, ns in o["body"]:
            if k == "jump" and (ns // 1000) % 2:
                ns = -ns
            w.advance(ns, k)
            if ns:
                ctx.fault("clock_" + k)

    def leave(o):
        if o["exit"] == "user":
            ctx.fault("section_raises")
            raise SimUserError("[sim] section")
        if o["exit"] == "interrupt":
            ctx.fault("section_interrupted")
            raise SimInterrupt()

    def begin(i):
        return max(w.gpu_free, w.mono()) if case["timers"][i]["dev"] != "cpu" else w.mono()

    def done(i, label, off, t0, t1, abnormal):
        m = M[i]
        if m["active"] and not off:
            m["last"] = (t1 - t0) / 1e9
            if label is not None:
                m["stats"].setdefault(label, []).append(m["last"])
            if odd[i]:
                ctx.nontriv = True
        odd[i] = odd[i] or abnormal or off or not m["active"]

    for n, o in enumerate(case["ops"]):
        ctx.step()
        i = o["t"]
        t, m = T[i], M[i]
        h = o["how"]
        label = o["label"] if not case["timers"][i]["plain"] else None
        if h == "bare" and (not case["timers"][i]["plain"] or left[i]):
            continue
        ab = o["exit"] in ("user", "interrupt")
        mark = [None, None]
        if h == "active":
            t.active = m["active"] = o["v"]
        elif h == "with":
            with_block(t, o, label, lambda: mark.__setitem__(0, begin(i)), lambda: mark.__setitem__(1, begin(i)), body, leave)
            done(i, label, o["off"], mark[0], mark[1], ab)
        elif h == "bare":
            try:
                with t:
                    mark[0] = begin(i)
                    body(o)
                    mark[1] = begin(i)
                    leave(o)
            except (SimUserError, SimInterrupt):
                pass
            done(i, None, False, mark[0], mark[1], ab)
        elif h == "decor":  # a with-block that also drives a section of another timer
            j = o["other"]
            if j == i or case["timers"][j]["plain"]:
                continue
            mk = [None, None]
            with t(label, deactivate=o["off"]):
                mark[0] = begin(i)
                mk[0] = begin(j)
                T[j].start("inner")
                body(o)
                mk[1] = begin(j)
                T[j].end()
                mark[1] = begin(i)
            done(j, "inner", False, mk[0], mk[1], False)
            done(i, label, o["off"], mark[0], mark[1], False)
        elif h == "gen":
            def g():
                with t(label, deactivate=o["off"]):
                    mark[0] = begin(i)
                    yield
                    mark[1] = begin(i)

            it = g()
            next(it)
            body(o)
            if o["exit"] == "ok":
                next(it, None)
            else:
                mark[1] = begin(i)
                it.close()
                ctx.fault("generator_closed")
            done(i, label, o["off"], mark[0], mark[1], o["exit"] != "ok")
        elif h in ("pair", "pairnone"):
            label = label if h == "pair" else None
            mark[0] = begin(i)
            r = t.start(label, deactivate=o["off"]) if o["off"] or o["v"] else (t.start(label) if label is not None else t.start())
            ctx.check(r is t, "start-result", lambda: repr(r))
            try:
                body(o)
                leave(o)
            except (SimUserError, SimInterrupt):
                pass
            mark[1] = begin(i)
            t.end()
            done(i, label, o["off"], mark[0], mark[1], ab)
        elif h == "abandon":  # an exception between start() and end(): the section never ends
            t.start(label, deactivate=o["off"])
            body(o)
            ctx.fault("section_abandoned")
            left[i] = True
            odd[i] = True
        ctx.ev(n, h, i, [(k, v) for k, v in sorted(m["stats"].items())], m["last"])
        ctx.state(h, label, o["off"], o["exit"], m["active"], len(m["stats"]))
        for j, (tt, mm) in enumerate(zip(T, M)):
            got = {k: list(v) for k, v in tt.stats().items() if len(v)}
            if not same_stats(got, mm["stats"]):
                ctx.violate("stats-differ", f"after section {n} ({h}, label {label!r}, deactivated {o['off']}, {o['exit']}): timer {j} has {got}, expected {mm['stats']}", how=h)
                return
            if not close(tt.elapsed_time, mm["last"]):
                ctx.violate("elapsed-differs", f"after section {n} ({h}): timer {j} elapsed_time {tt.elapsed_time}, expected {mm['last']}", how=h)
                return


def with_block(t, o, label, started, ended, body, leave):
    try:
        for _ in range(1):
            if inner(t, o, label, started, ended, body, leave) == "break":
                break
    except (SimUserError, SimInterrupt):
        pass


def inner(t, o, label, started, ended, body, leave):
    cm = t(label, deactivate=o["off"]) if o["off"] or o["v"] else (t(label) if label is not None else t())
    with cm as x:
        started()
        assert x is t
        body(o)
        ended()
        leave(o)
        if o["exit"] == "return":
            return None
        if o["exit"] == "break":
            return "break"


def close(a, b):
    return abs(a - b) <= 1e-9 + 1e-12 * abs(b)


def same_stats(a, b):
    return set(a) == set(b) and all(len(a[k]) == len(b[k]) and all(close(x, y) for x, y in zip(a[k], b[k])) for k in a)


def shrink(case):
    for i in range(len(case["ops"])):
        if len(case["ops"]) > 1:
            yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1 :])
    for i, o in enumerate(case["ops"]):
        for k in range(len(o["body"])):
            p = dict(o, body=o["body"][:k] + o["body"][k + 1 :])
            yield dict(case, ops=case["ops"][:i] + [p] + case["ops"][i + 1 :])
