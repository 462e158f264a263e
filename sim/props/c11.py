"""C11 - independent problems in different threads do not interfere."""
import json

from .. import sched
from ..core import Rng

sched.patch_locks()  # before the library is imported

from .. import modes, progs, robots  # noqa

RUNS = {"quick": 260, "thorough": 20000}
RULE = ("a run is 2-4 threads, each executing its own program (layer calls with backward and failures, objective histories, scoped modes, "
        "group and Lie-tensor operations with their own generators, robot kinematics, automatic naming) under a seeded line-level "
        "preemptive schedule; every observation must equal, bit for bit, that of the same program running alone; non-trivial if "
        "at least 10 preemptions happened")
REAL = ["theseus, torchlie, torchkin, torch autograd", "real threads (one running at a time)"]
STUB = ["thread scheduling (seeded, preemption before any library source line)", "locks created by the library (scheduler-aware wrapper)",
        "user cost functions, linear solver failures"]
ASSUMPTIONS = ["preemption points are source lines of the library; switches inside one torch operator or one line are not explored",
               "programs do not use the global torch generator (C13 covers it)"]


def prepare():
    sched.import_all()
    for k in ("robot", "tl", "geo", "modes", "obj", "layer"):
        rng = Rng("warm11", k)
        with robots.Scratch() as d:
            for _ in range(2):
                modes.install_warnings()
                progs.run(progs.gen(rng, [k]), progs.Rec(), d)


def gen(rng, tier, i):
    n = rng.choice([2, 2, 3, 4])
    kinds = None
    x = rng.random()
    if x < 0.35:  # same kind of program in every thread: contention on the same code
        kinds = [rng.choice(progs.KINDS)]
    ths = [progs.gen(rng, kinds) for _ in range(n)]
    if x < 0.1:
        q = json.loads(json.dumps(ths[0]))
        ths = [q] * n
    return dict(threads=ths, sseed=rng.seed_int(), q=rng.choice([1, 3, 10, 50, 300]), hot=rng.choice([0, 0, 0.05, 0.3]),
                first=rng.choice(["solo", "threads"]))


def solo_recs(case, scratch):
    out = []
    for p in case["threads"]:
        r = progs.Rec()
        e = sched.solo(lambda p=p, r=r: progs.run(p, r, scratch))
        out.append((r, e))
    return out


def run(case, ctx):
    modes.install_warnings()
    ths = case["threads"]
    if not ths:
        return
    n = len(ths)
    with robots.Scratch() as d:
        solo = solo_recs(case, d) if case["first"] == "solo" else None
        recs = [progs.Rec() for _ in ths]
        S = sched.Scheduler(n, case["sseed"], case["q"], case["hot"], case.get("sched"))
        errs = S.run([lambda p=p, r=r: progs.run(p, r, d) for p, r in zip(ths, recs)])
        ctx.sched = S.schedule()
        if solo is None:
            solo = solo_recs(case, d)
    ctx.step(S.lines)
    ctx.probe("preemptions", S.switches)
    ctx.probe("preemption_sites", len(S.sites))
    ctx.probe("lock_waits", S.lock_waits)
    if S.switches >= 10:
        ctx.nontriv = True
    ctx.state([p["k"] for p in ths], S.schedule())
    names = []
    for i, (r, e, (sr, se)) in enumerate(zip(recs, errs, solo)):
        p = ths[i]
        for _, what in enumerate(x for x in ("user", "interrupt", "solver") for c in p.get("calls", []) if c.get("fail") == x):
            ctx.fault("failure_in_thread_" + what)
        if type(e) is not type(se):
            ctx.violate("thread-error", f"thread {i} ({p['k']}): {e!r} when interleaved, {se!r} alone")
            continue
        if se is not None:
            raise se
        if len(r.items) != len(sr.items):
            ctx.violate("thread-results", f"thread {i} ({p['k']}): {len(r.items)} observations interleaved, {len(sr.items)} alone")
        for a, b in zip(r.items, sr.items):
            if a[:2] != b[:2]:
                ctx.violate("thread-results", f"thread {i} ({p['k']}): {a} when interleaved, {b} alone")
                break
        for k, m in r.model_viol[:1]:
            ctx.violate("thread-" + k, f"thread {i}: {m}")
        ctx.ev(i, [x[:2] for x in r.items])
        names += r.names
    if len(set(names)) != len(names):
        dup = sorted({x for x in names if names.count(x) > 1})
        ctx.violate("name-collision", f"automatic names assigned twice: {dup[:5]}")
    ctx.ev(S.schedule())


def shrink(case):
    if len(case["threads"]) > 1 and "sched" in case:
        for i in range(len(case["threads"])):
            c = json.loads(json.dumps(case))
            del c["threads"][i]
            c["sched"] = [[t - (t > i), k] for t, k in c["sched"] if t != i]
            yield c
    for i, p in enumerate(case["threads"]):
        for q in progs.shrink(p):
            c = json.loads(json.dumps(case))
            c["threads"][i] = q
            yield c
    if "sched" in case:
        for s in sched.merged(case["sched"]):
            c = dict(case, sched=s)
            yield c
