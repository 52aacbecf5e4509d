"""Parallel seeded search, confirmation of hangs, minimisation, replay files, evidence."""
import gc
import json
import multiprocessing
import os
import resource
import signal
import sys
import time

from core import H, RunTimeout, Violation
from execute import RealMemory
from history import new_stats

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WATCHDOG = 20.0
BUDGET = 1500000
MIN_STEPS, MIN_CHANGES = 4, 2
real_time = time.monotonic


def _alarm(sig, frame):
    raise RunTimeout()


def arm(seconds):
    """Processor time, so that a loaded machine does not matter; wall time, far more of it, for what waits without running."""
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    signal.setitimer(signal.ITIMER_REAL, 6 * seconds)


def limit_memory(gb):
    """A subject that allocates without end hits this limit, not the machine's."""
    try:
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ValueError, OSError):
        pass


class HarnessError(Exception):
    pass


def guarded(scn, cfg, stats, steps=None, trace=None, line_budget=None, watchdog=WATCHDOG):
    """One run under the watchdog; hangs and memory exhaustion are confirmed with a deterministic line budget."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGVTALRM, _alarm)
    arm(watchdog)
    hung = False
    done = None
    try:
        res = scn.run(cfg, stats, steps, trace, line_budget)
        arm(0)
        return res
    except (RunTimeout, RealMemory):
        arm(0)
        hung = True
    finally:
        arm(0)
        sys.settrace(None)
    if hung:
        from env import CTX
        CTX.reset()
        done = list(scn.active[1]) if getattr(scn, "active", None) else steps
        scn.cleanup() if hasattr(scn, "cleanup") else None
        gc.collect()
        if line_budget is not None:
            raise HarnessError("watchdog expired although the line budget did not: steps %s" % json.dumps(done)[-500:])
        arm(600)
        try:
            sim, d2, v = scn.run(cfg, new_stats(), done, trace, BUDGET)
        except RealMemory:
            raise HarnessError("out of memory without exceeding the line budget")
        finally:
            arm(0)
            sys.settrace(None)
        if v is None:
            if watchdog < 200:
                # merely slow (a loaded machine): run again with a generous watchdog
                return guarded(scn, cfg, stats, steps, trace, None, 240)
            raise HarnessError("a run exceeded the watchdog but terminates")
        return sim, d2, v


def worker(scn, base, idxs, tier, deadline, stop, q, wid):
    limit_memory(3)
    sys.setrecursionlimit(5000)
    gc.disable()
    st = new_stats()
    lo = None
    n = 0
    try:
        for i in idxs:
            if real_time() > deadline or (stop.value >= 0 and i > stop.value):
                break
            seed = H(base, scn.pid, i)
            cfg = scn.config(seed, tier)
            cfg["index"] = i
            sim, steps, v = guarded(scn, cfg, st)
            st["runs"] += 1
            dg = sim.digest.hexdigest()
            st["digests"].add(dg)
            if sim.steps >= MIN_STEPS and sim.changes >= MIN_CHANGES:
                st["nontrivial"].add(dg)
            if n < 1 and wid < 3:
                st["samples"].append({"index": i, "seed": seed, "clients": cfg.get("clients"), "operations": sim.steps, "digest": dg,
                                      "first_steps": [json.loads(json.dumps(x)) for x in steps[:6]]})
            if len(st["states"]) < 400000:
                st["states"] |= sim.states
            n += 1
            if n % 20 == 0:
                gc.collect()
            if v is not None:
                with stop.get_lock():
                    if stop.value < 0 or i < stop.value:
                        stop.value = i
                q.put(("viol", wid, (i, cfg, steps, v.clause, v.msg)))
                break
        st["states"] = list(st["states"])
        st["digests"] = list(st["digests"])
        st["nontrivial"] = list(st["nontrivial"])
        q.put(("done", wid, st))
    except BaseException as e:  # noqa: BLE001
        import traceback
        q.put(("error", wid, "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]))


def search(scn, base, runs, tier, seconds, nworkers):
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    stop = ctx.Value("q", -1)
    deadline = real_time() + seconds
    ps = []
    for wid in range(nworkers):
        p = ctx.Process(target=worker, args=(scn, base, range(wid, runs, nworkers), tier, deadline, stop, q, wid), daemon=True)
        p.start()
        ps.append(p)
    total = new_stats()
    total["workers"] = nworkers
    viols, errors = [], []
    left = set(range(nworkers))
    while left:
        try:
            kind, wid, data = q.get(timeout=5)
        except Exception:
            for wid in list(left):
                if not ps[wid].is_alive() and q.empty():
                    time.sleep(0.3)
                    if q.empty():
                        errors.append("worker %d died with %s" % (wid, ps[wid].exitcode))
                        left.discard(wid)
            continue
        if kind == "viol":
            viols.append(data)
        elif kind == "done":
            left.discard(wid)
            merge(total, data)
        else:
            errors.append(data)
            left.discard(wid)
    for p in ps:
        p.join(5)
    viols.sort(key=lambda v: v[0])
    return total, viols, errors


def merge(a, b):
    for k, v in b.items():
        if k in ("states", "digests", "nontrivial"):
            a[k] |= set(v)
        elif isinstance(v, list):
            a.setdefault(k, []).extend(v)
        elif isinstance(v, dict):
            d = a.setdefault(k, {})
            for x, n in v.items():
                d[x] = d.get(x, 0) + n
        else:
            a[k] = a.get(k, 0) + v


# ---------------------------------------------------------------- minimisation
def same(scn, cfg, steps, clause, budget):
    try:
        sim, done, v = guarded(scn, cfg, new_stats(), steps, None, budget, 60)
    except (RunTimeout, HarnessError):
        return None
    if v is None or v.clause != clause:
        return None
    return done, v


def minimise(scn, cfg, steps, clause, seconds=40):
    """Shrinks the schedule and the fault trace while the same clause of the property still fails."""
    t0 = real_time()
    budget = BUDGET if clause == "nontermination" else None
    r = same(scn, cfg, steps, clause, budget)
    if r is None:
        return None
    best, v = r
    n = 2
    while len(best) > 1 and real_time() - t0 < seconds:
        size = max(1, len(best) // n)
        hit = False
        i = 0
        while i < len(best) and real_time() - t0 < seconds:
            cand = best[:i] + best[i + size:]
            r = same(scn, cfg, cand, clause, budget) if cand else None
            if r:
                best, v = r
                hit = True
            else:
                i += size
        if not hit:
            if size == 1:
                break
            n = min(len(best), n * 2)
        else:
            n = max(2, n - 1)
    # simplify the steps themselves
    changed = True
    while changed and real_time() - t0 < seconds:
        changed = False
        for i in range(len(best)):
            for cand_step in simpler(best[i]):
                if real_time() - t0 > seconds:
                    break
                cand = best[:i] + [cand_step] + best[i + 1:]
                r = same(scn, cfg, cand, clause, budget)
                if r:
                    best, v = r
                    changed = True
                    break
            if i >= len(best) - 1:
                break
    return best, v


def simpler(step):
    if not isinstance(step, dict):
        return
    if step.get("f"):
        yield {k: v for k, v in step.items() if k != "f"}
    for j, a in enumerate(step.get("a", [])):
        if isinstance(a, dict) and "src" in a:
            shape, items, fail = a["src"]
            for m in range(len(items)):
                it = items[:m] + items[m + 1:]
                yield dict(step, a=step["a"][:j] + [{"src": [shape, it, None if fail is None else [fail[0], min(fail[1], len(it))]]}] + step["a"][j + 1:])
    for key in ("queries", "order", "sched", "threads"):
        xs = step.get(key)
        if isinstance(xs, list) and len(xs) > 1:
            for m in range(len(xs)):
                yield dict(step, **{key: xs[:m] + xs[m + 1:]})
        if isinstance(xs, list):
            for m, x in enumerate(xs):
                if isinstance(x, list) and len(x) > 1 and key == "threads":
                    for u in range(len(x)):
                        yield dict(step, **{key: xs[:m] + [x[:u] + x[u + 1:]] + xs[m + 1:]})


# ---------------------------------------------------------------- replay files
def write_replay(pid, base, cfg, steps, v, scn, prelude=None):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    trace = []
    digest = None
    try:
        if scn is None:
            raise HarnessError("recorded, not run again")
        sim, done, v2 = guarded(scn, cfg, new_stats(), steps, trace, BUDGET if v.clause == "nontermination" else None, 120)
        digest = sim.digest.hexdigest()
    except (RunTimeout, HarnessError):
        digest = None
    path = os.path.join(d, "%s-%s-%d.json" % (pid, v.clause, cfg.get("index", 0)))
    with open(path, "w") as f:
        json.dump({"property": pid, "verif_seed": base, "index": cfg.get("index"), "seed": cfg["seed"], "cfg": cfg, "clause": v.clause,
                   "message": v.msg, "digest": digest, "prelude": prelude, "steps": steps, "trace": trace[-60:]}, f, indent=1, ensure_ascii=True)
        f.write("\n")
    return path
