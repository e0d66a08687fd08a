"""Writes /verif/evidence/<id>.json from what a run measured."""
import json
import os

from . import boot


def write(prop, tier, seed, runs, total, stats, sigs, samples, viols, run_s, wall_s, workers, asked):
    d = os.path.join(boot.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    from . import locks, monitor
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(sigs),
        "rule": prop.RULE,
        "samples": [{"index": s["index"], "signature": s["sig"], "scenario": s["scenario"], "measured": s["stats"]}
                    for s in samples[:3]],
        "runs_requested": total,
        "runs_per_hour": round(runs / max(run_s, 1e-3) * 3600),
        "seeds_per_hour": round(runs / max(run_s, 1e-3) * 3600),
        "simulated_time": stats.get("sim_time", prop.SIM_TIME),
        "faults_injected": stats.get("faults", {}),
        "distinct_measure": prop.DISTINCT,
        "reached": {k: v for k, v in stats.items() if k not in ("faults", "sim_time")},
        "oracle_questions_answered_in_pristine_processes": asked,
        "workers": workers,
        "instrumented_code_objects": len(monitor.codes),
        "locks_created_by_code_under_test": locks.created,
        "real_components": prop.REAL,
        "stubbed_components": prop.STUBS,
    }
    ev = {"property": prop.ID, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": prop.LEVEL, "coverage": cov,
          "assumptions": prop.ASSUME, "wall_s": round(wall_s, 2), "violations": viols}
    path = os.path.join(d, prop.ID + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + ".tmp", path)
