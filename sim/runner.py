"""Runs the simulated runs of one property, minimises and replays violations, writes evidence."""
import importlib
import json
import os
import selectors
import signal
import subprocess
import sys
import time
import traceback

from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
CASE_TIMEOUT = float(os.environ.get("SIM_CASE_TIMEOUT", "150"))


def load(prop):
    return importlib.import_module("sim.props." + prop.lower())


def warm():
    """pull in everything torch imports lazily, once, before forking"""
    import torch
    import torchlie
    from torch.func import jacrev, vmap
    from .faults import OpFault
    from . import world
    import theseus as th

    rng = core.Rng("warm")
    for i in range(6):
        spec = world.gen_spec(rng, types=["SE3", "SE2", "Vector"], nextra=(3, 5))
        for mode in (False, True):
            W = world.build(spec, vectorize=mode)
            for v in W.vars.values():
                v.update(v.tensor.requires_grad_(True))
            W.obj.update()
            if i == 0:
                with OpFault(0):
                    W.obj.error().sum().backward()
                    vmap(jacrev(torch.sin))(torch.rand(2, 2))
            o = th.LevenbergMarquardt(W.obj, max_iterations=1)
            with torch.no_grad():
                try:
                    o.optimize(damping=1.0)
                except RuntimeError:
                    pass


def ready(mod):
    """Warming up runs code under test: if that fails, the runs themselves are what reports it."""
    steps = ([] if getattr(mod, "NOWARM", False) else [warm]) + ([mod.prepare] if hasattr(mod, "prepare") else [])
    for f in steps:
        try:
            f()
        except Exception as e:
            if _repo_site(e) is None:
                raise
            print(f"[sim] warming up raised {type(e).__name__} at {_repo_site(e)}", flush=True)


# ------------------------------------------------------------------ running one case in this process
def run_case_here(mod, case):
    import numpy as np
    import random
    import torch
    import warnings

    torch.manual_seed(12345)
    np.random.seed(12345)
    random.seed(12345)
    warnings.simplefilter("ignore")
    ctx = core.Ctx()
    err = None
    try:
        if "gen_failed" in case:
            mod.gen(core.Rng("case", case["prop"], case["seed"], case["index"]), case["gen_failed"], case["index"])
        else:
            mod.run(case, ctx)
    except core.CaseInvalid as e:
        err = ("invalid", str(e))
    except BaseException as e:  # noqa
        where = _repo_site(e)
        if where is not None:
            ctx.violate(
                "unexpected-" + type(e).__name__,
                f"{type(e).__name__}: {e} at {where}",
            )
        else:
            err = ("harness", "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:])
    r = ctx.result()
    if err:
        r["err"] = err
    return r


def _repo_site(e):
    """file:function of the innermost /repo frame, if the exception passed through code under test"""
    site = None
    tb = e.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(core.REPO + "/"):
            site = f"{fn[len(core.REPO) + 1:]}:{tb.tb_frame.f_code.co_name}"
        elif "/verif/sim" in fn or fn.startswith(VERIF):
            # a harness callback invoked below repo code raised: keep looking
            if site is not None and not isinstance(e, core.SIM_FAULTS):
                site = None
        tb = tb.tb_next
    return site


def coverage_on():
    """development aid: the source lines of the code under test that this run executes"""
    m, seen = sys.monitoring, set()
    m.use_tool_id(m.COVERAGE_ID, "sim")
    root = core.REPO + "/"

    def line(code, n):
        if code.co_filename.startswith(root):
            seen.add((code.co_filename[len(root):], n))
        return m.DISABLE

    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)
    return seen


# ------------------------------------------------------------------ forked execution
class Pool:
    def __init__(self, mod, workers=WORKERS):
        self.mod = mod
        self.workers = workers

    def _spawn(self, case):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.setsid()
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                if not os.environ.get("SIM_DEBUG"):
                    os.dup2(devnull, 2)
                cov = coverage_on() if os.environ.get("SIM_COV") else None
                res = run_case_here(self.mod, case)
                if cov is not None:
                    with open(os.path.join(os.environ["SIM_COV"], str(os.getpid())), "w") as f:
                        f.writelines(f"{a}:{b}\n" for a, b in cov)
                data = json.dumps(res).encode()
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            except BaseException:  # noqa
                code = 3
                try:
                    os.write(w, json.dumps({"err": ["harness", traceback.format_exc()[-3000:]]}).encode())
                except Exception:
                    pass
            finally:
                os._exit(code)
        os.close(w)
        return pid, r

    def run(self, cases, on_result, stop=None):
        """cases: iterable of (key, case); calls on_result(key, case, result)."""
        sel = selectors.DefaultSelector()
        live = {}
        it = iter(cases)
        done = False
        while True:
            while not done and len(live) < self.workers:
                if stop is not None and stop():
                    done = True
                    break
                try:
                    key, case = next(it)
                except StopIteration:
                    done = True
                    break
                pid, r = self._spawn(case)
                os.set_blocking(r, False)
                live[r] = [pid, key, case, b"", time.time()]
                sel.register(r, selectors.EVENT_READ)
            if not live:
                break
            for ev, _ in sel.select(timeout=1.0):
                fd = ev.fd
                rec = live[fd]
                try:
                    chunk = os.read(fd, 1 << 16)
                except BlockingIOError:
                    continue
                if chunk:
                    rec[3] += chunk
                    continue
                sel.unregister(fd)
                os.close(fd)
                pid, key, case, buf, t0 = live.pop(fd)
                _, st = os.waitpid(pid, 0)
                try:
                    res = json.loads(buf.decode())
                except Exception:
                    res = {"err": ["harness", f"worker died: status {st}"]}
                on_result(key, case, res)
            now = time.time()
            for fd in list(live):
                pid, key, case, buf, t0 = live[fd]
                if now - t0 > CASE_TIMEOUT:
                    sel.unregister(fd)
                    os.close(fd)
                    live.pop(fd)
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    on_result(key, case, {"err": ["timeout", f"case exceeded {CASE_TIMEOUT}s"]})


ERR_KINDS = {"harness": "results-unusable", "timeout": "hang"}


def viols_of(r):
    """A run that cannot be completed is a violation as well if it happens again when replayed: the code under test handed
    back something no checker can use, killed the process, or never returned."""
    out = list(r.get("viol", []))
    e = r.get("err")
    if e and e[0] in ERR_KINDS:
        kind = "process-died" if e[1].startswith("worker died") else ERR_KINDS[e[0]]
        out.append(dict(kind=kind, msg=e[1][-1500:], where={}))
    return out


# ------------------------------------------------------------------ minimisation
def generic_shrink(case):
    """Candidates obtained by dropping chunks of every top-level list and shrinking spec pieces."""
    for key in ("faults", "ops", "threads", "sched") if "sched" not in case or "threads" not in case else ("faults", "ops", "sched"):
        lst = case.get(key)
        if not isinstance(lst, list) or not lst:
            continue
        n = len(lst)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                if key == "ops" and size == n:
                    continue
                c = json.loads(json.dumps(case))
                del c[key][i : i + size]
                yield c
            size //= 2


def minimise(mod, case, kind, budget_s=75):
    t_end = time.time() + budget_s
    pool = Pool(mod)
    tried = 0
    best = case
    improved = kind != "hang" and "gen_failed" not in case
    while improved and time.time() < t_end:
        improved = False
        gens = [getattr(mod, "shrink", None), generic_shrink]
        cands = []
        seen = set()
        size = len(json.dumps(best))
        for g in gens:
            if g is None:
                continue
            try:
                for c in g(best):
                    if len(cands) >= 400 or time.time() > t_end:
                        break
                    k = json.dumps(c, sort_keys=True)
                    h = hash(k)
                    if h not in seen and len(k) <= size:
                        seen.add(h)
                        cands.append(c)
            except Exception:  # a proposal that runs the broken code under test ends the list of proposals
                pass
        i = 0
        while i < len(cands) and time.time() < t_end:
            batch = cands[i : i + WORKERS]
            i += WORKERS
            hits = {}

            def on(key, c, r):
                if any(v["kind"] == kind for v in viols_of(r)):
                    hits[key] = c

            pool.run(enumerate(batch), on)
            tried += len(batch)
            if hits:
                best = hits[min(hits)]
                improved = True
                break
    return best, tried


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        data = json.load(open(path))
    except FileNotFoundError:
        return []
    return [k for k in data.get("known", []) if k["property"] == prop]


def matches(known, viol):
    for k in known:
        m = k["match"]
        if viol["kind"] in ([m["kind"]] if isinstance(m["kind"], str) else m["kind"]) and all(viol["where"].get(a) == b for a, b in m.get("where", {}).items()):
            return k
    return None


# ------------------------------------------------------------------ main entry
def cases_of(mod, prop, tier, seed, n):
    for i in range(n):
        rng = core.Rng("case", prop, seed, i)
        try:
            c = mod.gen(rng, tier, i)
        except Exception as e:
            if _repo_site(e) is None:
                raise
            c = dict(gen_failed=tier)
        c["prop"] = prop
        c["index"] = i
        c["seed"] = seed
        yield i, c


def main_check(prop, tier, seed):
    t0 = time.time()
    print(f"[sim] property={prop} tier={tier} VERIF_SEED={seed}", flush=True)
    mod = load(prop)
    ready(mod)
    n = int(os.environ.get("SIM_RUNS", "0")) or mod.RUNS[tier]
    known = known_findings(prop)
    agg = dict(fired={}, probes={}, steps=0, simt=0.0, fps={}, errs=[], nontriv=0, runs=0, invalid=0)
    viols = []
    known_hits = {}
    samples = []
    digest = {}

    def on(key, case, r):
        agg["runs"] += 1
        if r.get("err"):
            if r["err"][0] == "invalid":
                agg["invalid"] += 1
            else:
                agg["errs"].append((key, r["err"]))
        for k, v in r.get("fired", {}).items():
            agg["fired"][k] = agg["fired"].get(k, 0) + v
        for k, v in r.get("probes", {}).items():
            agg["probes"][k] = agg["probes"].get(k, 0) + v
        agg["steps"] += r.get("steps", 0)
        agg["simt"] += r.get("simt", 0.0)
        if r.get("nontriv"):
            agg["nontriv"] += 1
            agg["fps"].setdefault(r["fp"], key)
        digest[key] = r.get("digest", "")
        if key < 3:
            s = json.dumps(case)
            samples.append((key, s if len(s) < 2500 else s[:2500] + "..."))
        if r.get("sched") is not None and "sched" not in case:
            case = dict(case, sched=r["sched"])
        for v in viols_of(r):
            k = matches(known, v)
            if k is not None:
                known_hits[k["id"]] = k
            else:
                viols.append((key, case, v))

    pool = Pool(mod)
    hard_stop = t0 + (600 if tier == "quick" else 6 * 3600)

    def stop():
        # enough evidence of a violation: do not spend the rest of the budget
        return len(viols) >= 5 or any(v[2]["kind"] == "hang" for v in viols) or time.time() > hard_stop

    pool.run(cases_of(mod, prop, tier, seed, n), on, stop)
    truncated = agg["runs"] < n and not viols
    wall_search = time.time() - t0

    # known findings: confirm each listed one still fails as recorded
    for k in known:
        if k["id"] not in known_hits and "case" in k:
            def onk(key, case, r, k=k):
                for v in r.get("viol", []):
                    if matches([k], v):
                        known_hits[k["id"]] = k
            pool.run([(0, k["case"])], onk)
    for k in known:
        if k["id"] in known_hits:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")

    replay_path = None
    rc = 0
    reports = []
    if viols:
        weak = set(ERR_KINDS.values()) | {"process-died"}
        viols.sort(key=lambda t: (t[2]["kind"] in weak, t[0], t[2]["kind"]))
        key, case, v = viols[0]
        print(f"[sim] violation kind={v['kind']} run={key}: {v['msg'][:600]}", flush=True)
        small, tried = minimise(mod, case, v["kind"], 60 if tier == "quick" else 600)
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        replay_path = os.path.join(rdir, f"{prop}-{seed}-{key}.json")
        core.jdump(dict(property=prop, kind=v["kind"], seed=seed, run=key, case=small, msg=v["msg"],
                        minimised=dict(tried=tried, size_before=len(json.dumps(case)), size_after=len(json.dumps(small)))), replay_path)
        ok, out = replay_fresh(replay_path)
        if not ok:
            core.jdump(dict(property=prop, kind=v["kind"], seed=seed, run=key, case=case, msg=v["msg"]), replay_path)
            ok, out = replay_fresh(replay_path)
        if ok:
            rc = 1
        else:
            print("[sim] ERROR: violation does not replay in a fresh process:\n" + out[-2000:])
            rc = 2
        reports = sorted({(x[2]["kind"]) for x in viols})
    if agg["errs"]:
        for key, e in agg["errs"][:3]:
            print(f"[sim] HARNESS ERROR run={key}: {e[0]}: {e[1]}", flush=True)
        if rc == 0:
            rc = 2
    if truncated and rc == 0:
        print("[sim] ERROR: wall budget exceeded before all runs completed")
        rc = 2

    wall = time.time() - t0
    samples.sort()
    cov = dict(
        evaluations=agg["runs"],
        distinct_nontrivial=len(agg["fps"]),
        nontrivial=agg["nontriv"],
        invalid=agg["invalid"],
        rule=mod.RULE,
        samples=[json.loads(s) if not s.endswith("...") else s for _, s in samples] or ["(none)"],
        seeds=[f"VERIF_SEED={seed}, runs 0..{n - 1}"],
        runs_per_hour=int(agg["runs"] / max(wall_search, 1e-3) * 3600),
        simulated_steps=agg["steps"],
        simulated_seconds=round(agg["simt"], 3),
        faults_injected=dict(sorted(agg["fired"].items())),
        probes=dict(sorted(agg["probes"].items())),
        distinct_measure="sha256 of the run's abstract history (operations, outcomes, fault sites, schedule)",
        components_real=getattr(mod, "REAL", []),
        components_stub=getattr(mod, "STUB", []),
        replay=replay_path,
        violation_kinds=reports,
        event_log_digest=_agg_digest(digest),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2),
              violations=len({x[0] for x in viols}))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    core.jdump(ev, os.path.join(VERIF, "evidence", prop + ".json"))
    print(f"[sim] runs={agg['runs']} nontrivial={agg['nontriv']} distinct={len(agg['fps'])} steps={agg['steps']} "
          f"faults={cov['faults_injected']} wall={wall:.1f}s digest={cov['event_log_digest'][:16]}", flush=True)
    if os.environ.get("SIM_DIGESTS"):
        core.jdump({str(k): v for k, v in digest.items()}, os.environ["SIM_DIGESTS"])
    if rc == 1:
        print(f"VIOLATION property={prop} replay={replay_path}", flush=True)
    return rc


def _agg_digest(d):
    import hashlib

    h = hashlib.sha256()
    for k in sorted(d):
        h.update(f"{k}:{d[k]};".encode())
    return h.hexdigest()


def replay_fresh(path):
    p = subprocess.run([sys.executable, "-m", "sim", "replay", path], cwd=VERIF, env=dict(os.environ),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    return p.returncode == 1 and "REPRODUCED" in p.stdout, p.stdout


def main_replay(path):
    rec = json.load(open(path))
    mod = load(rec["property"])
    ready(mod)
    out = {}

    def on(key, case, r):
        out.update(r)

    Pool(mod).run([(0, rec["case"])], on)
    hit = [v for v in viols_of(out) if v["kind"] == rec["kind"]]
    for v in out.get("viol", []):
        print("violation:", v["kind"], v["msg"], v["where"])
    if out.get("err"):
        print("error:", out["err"][0], out["err"][1])
    if hit:
        print(f"REPRODUCED property={rec['property']} kind={rec['kind']} digest={out.get('digest')}")
        return 1
    print("not reproduced")
    return 0
