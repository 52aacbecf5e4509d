"""Writes evidence/<property>.json: what one check actually covered, measured on this run."""
import json
import os

import runner
from history import new_stats

VERIF = runner.VERIF


def write(pid, tier, base, scn, total, secs, runs, rc, errors, lines, extra, wall):
    n = total["runs"]
    sec = max(secs, 1e-6)
    cov = {
        "evaluations": n,
        "distinct_nontrivial": len(total["nontrivial"]),
        "rule": scn.rule() if hasattr(scn, "rule") else
                "One case is one simulated execution of the real code: clients, containers, operations, arguments, random draws, faults and "
                "their positions all come from one seed derived from VERIF_SEED. Counted as distinct and non-trivial: different execution "
                "digest (every call, argument, fault and outcome is hashed), at least %d operations executed and at least %d container "
                "changes (or, for reader scenarios, overlapping queries)." % (runner.MIN_STEPS, runner.MIN_CHANGES),
        "samples": total["samples"][:3],
        "runs_requested": runs,
        "distinct_executions": len(total["digests"]),
        "operations_executed": total["steps"],
        "distinct_states_reached": len(total["states"]),
        "state_measure": "distinct (container kind, observed contents and structure) pictures, hashed to 48 bits",
        "faults_fired": dict(sorted(total["faults"].items())),
        "probes_hit": dict(sorted(total["probes"].items())),
        "seeds_per_hour": round(n * 3600 / sec),
        "operations_per_hour": round(total["steps"] * 3600 / sec),
        "simulated_time": "logical: %d steps (the package reads no clock; clocks and entropy are simulated and unused)" % total["steps"],
        "workers": total.get("workers"),
        "search_seconds": round(secs, 2),
        "components_real": "all of /repo/extra, imported unmodified from the working tree",
        "components_stubbed": ["random module (seeded or adversarial draws)", "warnings.warn (recorded or escalated)", "Extra.__new__ (allocator)",
                               "os.urandom and clocks inside package calls"] + list(getattr(scn, "stubs", ())),
    }
    cov.update(extra.get("coverage", {}) if extra else {})
    if errors:
        cov["harness_errors"] = [e[-300:] for e in errors[:3]]
    d = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": base, "level": "exploration", "coverage": cov,
         "assumptions": ["CPython semantics: one thread runs at a time; a preemption point is a line of package code",
                         "A clean batch is evidence, not a proof: executions are sampled"] + list(getattr(scn, "assumptions", ())),
         "wall_s": round(wall, 2), "violations": sum(1 for x in lines if x.startswith("VIOLATION"))}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1, ensure_ascii=True)
        f.write("\n")
    os.replace(p + ".tmp", p)
