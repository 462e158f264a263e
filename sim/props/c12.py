"""C12 - scoped modes end with their scope."""
import contextlib
import json

from .. import sched
from ..core import Rng

sched.patch_locks()

from .. import modes, progs, robots  # noqa

RUNS = {"quick": 600, "thorough": 30000}
RULE = ("a run is 1-3 threads, each executing a random tree of nested scopes (all eight kinds), library calls that open scopes "
        "internally (some failing inside), and exits by falling through, exception, interrupt or generator close, under a seeded "
        "preemptive schedule; after every scope entry, exit and library call the modes in force are observed through behaviour "
        "(how an invalid tensor, an in-place step, Lie-tensor arithmetic are treated) and compared with an executable model; "
        "non-trivial if at least 3 scopes were entered")
REAL = ["theseus, torchlie mode contexts and every consumer of them", "layer calls, autodiff jacobians, copies run inside scopes"]
STUB = ["thread scheduling (seeded)", "user code and solver failures", "warnings.showwarning records per thread"]
ASSUMPTIONS = ["a fresh scope object is used for every entry, scopes nest properly within a thread",
               "interrupts arrive in user code, not between two bytecodes of the context manager itself"]


def prepare():
    sched.import_all()
    rng = Rng("warm12")
    for _ in range(4):
        modes.install_warnings()
        modes.Runner(lambda *a: None).run(modes.gen_tree(rng, 2, 3))


def gen(rng, tier, i):
    n = rng.choice([1, 1, 2, 3])
    ths = [modes.gen_tree(rng, depth=rng.choice([2, 3, 4]) if n == 1 else rng.choice([1, 2, 3]), width=3 if n == 1 else 2, lib=rng.choice([0.1, 0.35]))
           for _ in range(n)]
    return dict(threads=ths, sseed=rng.seed_int(), q=rng.choice([1, 3, 20, 100]), hot=rng.choice([0, 0.1, 0.5]),
                outer=[modes.gen_scope(rng) for _ in range(rng.choice([0, 0, 1, 2]))], every=rng.p(0.8))


def run(case, ctx):
    modes.install_warnings()
    ths = case["threads"]
    if not ths:
        return
    viol = []
    runners = [modes.Runner(lambda kind, msg, i=i: viol.append((i, kind, msg)), every=case["every"]) for i in range(len(ths))]
    logs = [[] for _ in ths]
    for r, log in zip(runners, logs):
        r.rec = lambda *a, log=log: log.append(progs._clean(a))
    S = sched.Scheduler(len(ths), case["sseed"], case["q"], case["hot"], case.get("sched"))
    main = modes.Runner(lambda kind, msg: viol.append(("main", kind, msg)))
    with contextlib.ExitStack() as st:
        for s in case["outer"]:
            # scopes held by the spawning thread are private to it
            st.enter_context(modes.make_scope(s))
            main.m.enter(s)
        errs = S.run([lambda r=r, t=t: r.run(t) for r, t in zip(runners, ths)])
        main.probes("held")
    main.m = modes.Model()
    main.probes("end")
    ctx.sched = S.schedule() if len(ths) > 1 else None
    for i, e in enumerate(errs):
        if e is not None:
            raise e
    for i, kind, msg in viol[:3]:
        ctx.violate(kind, f"thread {i}: {msg}")
    tot = {}
    for r in runners:
        for k, v in r.counts.items():
            tot[k] = tot.get(k, 0) + v
        ctx.step(r.n)
    for k, v in tot.items():
        if k.startswith("left_by") or k in ("lib_fault", "lib_raised"):
            ctx.fault(k, v)
        else:
            ctx.probe(k, v)
    ctx.probe("preemptions", S.switches)
    if sum(v for k, v in tot.items() if k.startswith("scope_")) >= 3:
        ctx.nontriv = True
    ctx.state(sorted(tot.items()), S.schedule() if len(ths) > 1 else 0)
    ctx.ev(logs)


def _sub(tree):
    for i, n in enumerate(tree):
        yield tree[:i] + tree[i + 1 :]
        if n.get("body") is not None:
            yield tree[:i] + n["body"] + tree[i + 1 :]
            for b in _sub(n["body"]):
                yield tree[:i] + [dict(n, body=b)] + tree[i + 1 :]
            if n["exit"] != "n":
                yield tree[:i] + [dict(n, exit="n")] + tree[i + 1 :]


def shrink(case):
    n = len(case["threads"])
    if n > 1:
        for i in range(n):
            c = json.loads(json.dumps(case))
            del c["threads"][i]
            c["sched"] = [[t - (t > i), k] for t, k in c.get("sched", []) if t != i]
            if n == 2:
                c.pop("sched")
            yield c
    for i in range(n):
        for t in _sub(case["threads"][i]):
            c = dict(case)
            c["threads"] = case["threads"][:i] + [t] + case["threads"][i + 1 :]
            yield c
    for i in range(len(case["outer"])):
        yield dict(case, outer=case["outer"][:i] + case["outer"][i + 1 :])
    if case.get("sched"):
        for s in sched.merged(case["sched"]):
            yield dict(case, sched=s)
