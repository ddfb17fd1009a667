"""Adds up the evidence of several explorations of one property (one per schema set)."""
import json
import sys

out, parts = sys.argv[1], [json.load(open(p)) for p in sys.argv[2:]]
r = parts[-1]
c = r["coverage"]
for p in parts[:-1]:
    d = p["coverage"]
    for k, v in d.items():
        if k.endswith("_per_hour"):
            continue
        if isinstance(v, (int, float)):
            c[k] = c.get(k, 0) + v
        elif k in ("faults_injected", "rare_condition_probes", "determinism_recheck"):
            for n, x in v.items():
                c[k][n] = c[k].get(n, 0) + x
        elif k == "samples":
            c[k] += v[:1]
    r["wall_s"] += p["wall_s"]
    r["violations"] += p["violations"]
c["schema_sets"] = len(parts)
c["simulated_runs_and_seeds_per_hour"] = int(c["evaluations"] / r["wall_s"] * 3600)
json.dump(r, open(out, "w"), indent=1)
