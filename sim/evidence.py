"""Writes evidence/<property>.json from what the batch measured."""
from __future__ import annotations

import json
import os


def write(here, prop, tier, seed, cls, reg, results, n, wall, jobs, violation, spec_for):
    faults, probes, stats = {}, {}, {}
    sigs, checks, queries, clock, ops = set(), 0, 0, 0.0, 0
    withfault = nontrivial = 0
    for i in sorted(results):
        r = results[i]
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["stats"].items():
            d = probes if k.startswith("probe:") else stats
            k = k[6:] if k.startswith("probe:") else k
            d[k] = d.get(k, 0) + v
        checks += r["checks"]
        queries += r["nqueries"]
        clock += r["clock"]
        ops += len(r["sig"])
        withfault += bool(r["faults"])
        s = tuple(r["sig"])
        if len(r["sig"]) > 1 and (r["checks"] or r["nqueries"]):
            nontrivial += 1
            sigs.add(s)
    sample = []
    for i in list(sorted(results))[:2]:
        sp = spec_for(reg, prop, seed, i, tier)
        sample.append({"run": i, "ops": sp["ops"][:6], "total_ops": len(sp["ops"]),
                       "outcome_signature": results[i]["sig"][:30],
                       "event_digest": results[i]["digest"]})
    points = {k: v for k, v in probes.items() if k.startswith("fault@")}
    other = {k: v for k, v in probes.items() if not k.startswith("fault@")}
    cov = {
        "evaluations": len(results),
        "distinct_nontrivial": len(sigs),
        "rule": "One evaluation is one simulated run: a seeded sequence of operations of one or "
                "several clients with seeded fault positions, executed on the real code in its "
                "own process. Two runs are distinct when their sequences of (client, operation, "
                "fault fired, outcome) differ; a run is non-trivial when it executed at least "
                "two operations and judged at least one observation.",
        "samples": sample,
        "runs_per_hour": round(len(results) / wall * 3600) if wall else 0,
        "seeds_per_hour": round(len(results) / wall * 3600) if wall else 0,
        "operations_executed": ops,
        "invariant_checks": checks,
        "oracle_comparisons": queries,
        "simulated_time": {"operations_as_steps": ops, "drawing_clock_s": round(clock, 3)},
        "runs_with_faults": withfault,
        "fault_free_runs": len(results) - withfault,
        "faults_injected": dict(sorted(faults.items())),
        "distinct_fault_points": len(points),
        "fault_points": dict(sorted(points.items(), key=lambda kv: -kv[1])[:60]),
        "probes": dict(sorted(other.items())),
        "counters": dict(sorted(stats.items())),
        "real_components": cls.real,
        "stub_components": cls.stub,
        "workers": jobs,
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": getattr(cls, "assumptions", []),
        "wall_s": round(wall, 2), "violations": 0 if violation is None else 1,
    }
    if violation is not None:
        ev["violation"] = violation
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    p = os.path.join(here, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + ".tmp", p)
