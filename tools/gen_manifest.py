#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {
    "N01": "SIMD operations are pure functions of their operands: no thread, clock, I/O, fault or schedule exists for a simulator to vary; needs exhaustive/differential input testing instead.",
    "N02": "Which bytes a load or store touches is a function of its arguments alone; no schedule, clock, I/O or fault influences it.",
    "N03": "ULP error of math functions is a numerical property of pure functions; nothing nondeterministic to simulate.",
    "N04": "Single-threaded algorithms without any concurrency, time, I/O or failure behaviour (sorting, which does read entropy and clocks, is C11).",
    "N05": "Robust statistics, bit sets and divisors are pure single-threaded computations; no schedule or fault to inject (their uses in timers, topology and affinity are C13-C17).",
    "N06": "Float conversions are pure functions of 16/32-bit values; nothing nondeterministic to simulate.",
}
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=HWY_SIM_HOOKS"], stdout=subprocess.PIPE, text=True).stdout.split()
m = {
    "version": 1,
    "setup_cmd": "python3 check.py build",
    "hooks": {"guard": "HWY_SIM_HOOKS", "enable": "build.py compiles /repo's sources with -DHWY_SIM_HOOKS (and our TSan-ABI runtime)",
              "source_commits": hooks},
    "checks": [], "not_applicable": [],
}
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": "deterministic simulation with fault injection (seeded schedule and fault search): " + p["title"],
            "level": "exploration",
            "level_note": p.get("note", "Seeded random search over many simulated executions of the real code; every violation is minimised and "
                                "replayed bit-exactly in a fresh process before it is reported. Trusts the simulator (sim/), the oracles (harness/) and "
                                "clang's TSan instrumentation; covers the x86-64 Linux code paths."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "Check under construction; not claimed yet.")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
