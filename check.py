#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  - decides one property by seeded simulation.
check.py replay FILE [--trace]       - re-executes a replay file.
check.py build                       - builds every simulation binary.

Exit 0: held on everything explored; 1: VIOLATION line printed; 3: no answer."""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build  # noqa: E402
import props  # noqa: E402

KNOWN = os.path.join(VERIF, "known_findings.txt")
REPLAYS = os.path.join(VERIF, "replays")


def main():
    if sys.argv[1] == "build":
        names = sorted({b for p in props.PROPS.values() for b in p["binaries"]})
        build.build(names)
        return 0
    if sys.argv[1] == "replay":
        text = open(sys.argv[2]).read()
        name = re.search(r"^binary (\S+)$", text, re.M).group(1)
        path = build.build([name])[name]
        return subprocess.run([path, "replay", sys.argv[2]] + sys.argv[3:]).returncode
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = props.PROPS[prop]
    t0 = time.time()
    evid = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evid), exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    for stale in os.listdir(REPLAYS):
        if stale.startswith(prop + "-"):
            os.unlink(os.path.join(REPLAYS, stale))
    try:
        paths = build.build(spec["binaries"])
    except RuntimeError as e:
        print("ERROR: build failed\n" + str(e)[:4000])
        return 3
    build_s = time.time() - t0
    total = float(os.environ.get("HWYSIM_SECS", spec.get("secs", 50) if tier == "quick" else spec.get("thorough_secs", 600)))
    weights = spec.get("weights", {})
    wsum = sum(weights.get(b, 1) for b in spec["binaries"])
    rc = 0
    parts = []
    for b in spec["binaries"]:
        out = os.path.join(build.OUT, "out-%s-%s.json" % (prop, b))
        if os.path.exists(out):
            os.unlink(out)
        secs = total * weights.get(b, 1) / wsum
        cmd = [paths[b], "search", "--prop", prop, "--seed", str(seed), "--secs", "%.1f" % secs, "--workers", "8",
               "--out", out, "--replay-dir", REPLAYS, "--known", KNOWN]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        sys.stdout.write(r.stdout)
        sys.stdout.flush()
        try:
            parts.append(json.load(open(out)))
        except (OSError, ValueError) as e:
            print("ERROR: no result from %s (exit %d): %s" % (b, r.returncode, e))
            rc = rc or 3
            continue
        if r.returncode not in (0, 1):
            rc = rc or 3
        elif r.returncode == 1:
            rc = 1
            break

    def tot(k):
        return sum(p[k] for p in parts)

    def merge(key):
        m = {}
        for p in parts:
            for k, v in p[key].items():
                if isinstance(v, dict):
                    d = m.setdefault(k, {})
                    for kk, vv in v.items():
                        d[kk] = d.get(kk, 0) + vv
                else:
                    m[k] = m.get(k, 0) + v
        return m

    if parts:
        search_s = max(tot("wall_s"), 0.01)
        cov = {
            "evaluations": tot("runs"),
            "distinct_nontrivial": tot("distinct"),
            "rule": spec["rule"],
            "samples": [dict(s, binary=p["binary"]) for p in parts for s in p["samples"]][:6],
            "simulated_runs_per_hour": int(tot("runs") / search_s * 3600),
            "seeds_per_hour": int(tot("runs") / search_s * 3600),
            "seed_rule": "run N of base seed S uses the run seed mix(S, N); one run seed is one exactly repeatable execution",
            "scheduler_steps": tot("steps"),
            "context_switches": tot("switches"),
            "simulated_seconds": tot("sim_ns") / 1e9,
            "plain_accesses_race_checked": tot("plain_accesses"),
            "atomic_operations": tot("atomic_ops"),
            "simulated_threads": tot("threads"),
            "max_threads_in_a_run": max(p["max_threads"] for p in parts),
            "recorded_decisions": tot("decisions"),
            "runs_executed_twice_with_identical_hash": tot("reruns"),
            "nontrivial_runs": tot("nontrivial"),
            "distinct_measure": "distinct 64-bit hashes over every nonzero decision (workload, schedule, stale load, fault) "
                                "together with every context switch and synchronisation event of a run",
            "runs_per_scenario": merge("scenarios"),
            "faults_injected": merge("faults"),
            "rare_conditions_reached": merge("probes"),
            "per_binary": {p["binary"]: {"runs": p["runs"], "steps": p["steps"], "wall_s": p["wall_s"]} for p in parts},
            "real_components": spec["real"],
            "stub_components": spec["stub"],
            "build_s": round(build_s, 1),
        }
        known = sorted({k for p in parts for k in p["known"]})
        if known:
            cov["known_findings_reproduced"] = known
        doc = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
               "assumptions": props.ASSUMPTIONS + spec.get("assumptions", []),
               "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0}
        if rc == 1:
            doc["violation"] = [p["violation"] for p in parts if p["violation"]]
        tmp = evid + ".tmp"
        json.dump(doc, open(tmp, "w"), indent=1)
        os.rename(tmp, evid)
        print("%s %s: %d runs (%d distinct) in %.1f s search + %.1f s build, exit %d"
              % (prop, tier, tot("runs"), tot("distinct"), search_s, build_s, rc))
    else:
        rc = rc or 3
    return rc


if __name__ == "__main__":
    sys.exit(main())
