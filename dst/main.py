"""Entry point. ./check C01 [--tier T] [--runs N] [--seconds S] | --replay FILE | --selftest [N] | --selftest-import | --digest C01 N"""
import gc
import json
import os
import subprocess
import sys
import time

import env

T0 = time.monotonic()

def _threads(argv):
    """Does this invocation concern one of the thread properties?"""
    for a in argv:
        if a in ("C20", "C21"):
            return True
        if a.endswith(".json") and os.path.exists(a):
            with open(a) as f:
                return json.load(f).get("property") in ("C20", "C21")
    return False


env.boot(_threads(sys.argv[1:]))

import runner  # noqa: E402
from core import H, Violation  # noqa: E402
from history import new_stats  # noqa: E402

VERIF = runner.VERIF


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(line)
    return out


def check(pid, tier, base, runs=None, seconds=None, workers=None):
    import scenarios
    scn = scenarios.make(pid)
    q = scenarios.BUDGET.get(pid, {})
    if tier == "thorough":
        runs = runs or q.get("thorough", 400000)
        seconds = seconds or q.get("thorough_s", 600)
    else:
        runs = runs or q.get("quick", 24000)
        seconds = seconds or q.get("quick_s", 150)
    workers = workers or min(8, os.cpu_count() or 4)
    t0 = time.monotonic()
    extra = {}
    if hasattr(scn, "preflight"):
        extra = scn.preflight(base, tier) or {}
    total, viols, errors = runner.search(scn, base, runs, tier, seconds, workers)
    search_s = time.monotonic() - t0
    rc = 0
    lines = []
    found = None
    if viols:
        runner.limit_memory(3)
    for viol in viols:
        i, cfg, steps, clause, msg = viol
        r = confirm(pid, base, tier, workers, scn, viol)
        if r is None:
            errors.append("violation of run %d (%s: %s) did not reproduce, neither from its recorded steps nor after the runs before it"
                          % (i, clause, msg[:500]))
            continue
        found, path, best, k = r
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        print("run %d seed %d: %s: %s" % (i, cfg["seed"], found.clause, found.msg))
        if k:
            print("  (after the %d runs before it in the same process: state outlives its containers)" % k)
        for s in best:
            print("  step", json.dumps(s, ensure_ascii=True)[:400])
        rc = 1
        break
    if "violation" in extra:
        found = extra["violation"]
        path = extra["replay"]
        print(found)
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    evidence(pid, tier, base, scn, total, search_s, runs, rc, errors, lines, extra)
    for k in known_findings(pid):
        print(k)
    if rc == 0 and errors:
        print("HARNESS-ERROR", errors[0][-2500:], file=sys.stderr)
        return 2
    for ln in lines:
        print(ln)
    print("%s %s: %d runs (%d distinct executions), %d steps, %d distinct states, faults %s, %.1fs" % (
        pid, "VIOLATED" if rc else "held", total["runs"], len(total["digests"]), total["steps"], len(total["states"]),
        json.dumps(total["faults"], sort_keys=True), time.monotonic() - T0))
    return rc


def replays(path, seconds):
    try:
        p = subprocess.run([os.path.join(VERIF, "check"), "--replay", path], capture_output=True, text=True, timeout=seconds,
                           env=dict(os.environ, DST_HASHSEED="0"))
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 1


def confirm(pid, base, tier, workers, scn, viol):
    """A violation counts when a fresh process reproduces it from its replay file: the minimised one, else the recorded one,
    else the recorded one after the k runs that preceded it in the same process (code under test that keeps state in a class or a
    module behaves according to what ran before)."""
    i, cfg, steps, clause, msg = viol
    r = runner.minimise(scn, cfg, steps, clause)
    if r is not None:
        best, v = r
        path = runner.write_replay(pid, base, cfg, best, v, scn)
        if replays(path, 600):
            return v, path, best, 0
    v = Violation(clause, msg)
    before = list(range(i % workers, i, workers))
    t0 = time.monotonic()
    k = 0
    while time.monotonic() - t0 < 200:
        path = runner.write_replay(pid, base, cfg, steps, v, None, {"tier": tier, "runs": before[len(before) - k:]})
        if replays(path, 240):
            return v, path, steps, k
        if k == len(before):
            break
        k = min(len(before), k * 8 or 1)
    return None


def evidence(pid, tier, base, scn, total, secs, runs, rc, errors, lines, extra):
    import evidence as ev
    ev.write(pid, tier, base, scn, total, secs, runs, rc, errors, lines, extra, time.monotonic() - T0)


def replay(path):
    import scenarios
    d = json.load(open(path))
    runner.limit_memory(3)
    scn = scenarios.make(d["property"])
    if d.get("preflight"):
        return scn.replay_preflight(dict(d, path=path))
    trace = []
    before = d.get("prelude") or {"runs": []}
    if before["runs"]:
        gc.disable()
        sys.setrecursionlimit(5000)
    for n, i in enumerate(before["runs"]):
        cfg = dict(scn.config(H(d["verif_seed"], d["property"], i), before["tier"]), index=i)
        sim, steps, v = runner.guarded(scn, cfg, new_stats())
        if v is not None:
            print("run %d: %s: %s" % (i, v.clause, v.msg))
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
        if n % 20 == 19:
            gc.collect()
    sim, done, v = runner.guarded(scn, d["cfg"], new_stats(), d["steps"], trace, runner.BUDGET if d["clause"] == "nontermination" else None, 300)
    for t in trace[-40:]:
        print(" ", t)
    if v is None:
        print("replay of %s: no violation" % path)
        return 0
    print("%s: %s" % (v.clause, v.msg))
    if d.get("digest") and sim.digest.hexdigest() != d["digest"]:
        print("note: execution digest differs from the recorded one")
        if v.clause != d["clause"]:
            return 0
    else:
        print("execution digest identical to the recorded one")
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1


def digests(pid, base, n):
    """Digest of the first n executions: must not depend on hash seed, process or worker count."""
    import scenarios
    sys.setrecursionlimit(5000)
    scn = scenarios.make(pid)
    st = new_stats()
    out = []
    for i in range(n):
        cfg = scn.config(H(base, pid, i), "quick")
        cfg["index"] = i
        sim, steps, v = runner.guarded(scn, cfg, st)
        out.append("%d %s %d%s" % (i, sim.digest.hexdigest(), len(steps), " " + v.clause if v else ""))
    return out


def selftest(n):
    import scenarios
    bad = 0
    for pid in scenarios.ALL:
        res = []
        for hs in ("0", "1", "4242"):
            p = subprocess.run([os.path.join(VERIF, "check"), "--digest", pid, str(n)], capture_output=True, text=True,
                               env=dict(os.environ, DST_HASHSEED=hs))
            res.append((p.returncode, p.stdout, p.stderr[-500:]))
        ok = all(r[0] == 0 for r in res) and len({r[1] for r in res}) == 1
        print(pid, "deterministic" if ok else "NOT DETERMINISTIC")
        if not ok:
            for r in res:
                print(r[0], r[1][:600], r[2])
            bad = 1
    return bad


def main(argv):
    base = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    a = list(argv)
    opt = {}
    pos = []
    while a:
        x = a.pop(0)
        if x in ("--tier", "--runs", "--seconds", "--workers", "--seed"):
            opt[x] = a.pop(0)
        else:
            pos.append(x)
    tier = opt.get("--tier", tier)
    if "--seed" in opt:
        base = int(opt["--seed"])
    if pos[:1] == ["--selftest-import"]:
        import scenarios
        print("ok: %d classes from %s, %d scenarios" % (len(env.LIB.classes), env.REPO, len(scenarios.ALL)))
        return 0
    if pos[:1] == ["--selftest"]:
        return selftest(int(pos[1]) if len(pos) > 1 else 12)
    if pos[:1] == ["--digest"]:
        print("\n".join(digests(pos[1], base, int(pos[2]))))
        return 0
    if pos[:1] == ["--exec"]:
        import scenarios
        d = json.load(open(pos[1]))
        scn = scenarios.make(d["property"])
        trace = []
        sim, done, v = runner.guarded(scn, d["cfg"], new_stats(), d["steps"], trace)
        print(sim.digest.hexdigest(), v.clause if v else "")
        return 0
    if pos[:1] == ["--replay"]:
        return replay(pos[1])
    if len(pos) != 1:
        print(__doc__)
        return 2
    return check(pos[0], tier, base, int(opt["--runs"]) if "--runs" in opt else None,
                 float(opt["--seconds"]) if "--seconds" in opt else None, int(opt["--workers"]) if "--workers" in opt else None)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
