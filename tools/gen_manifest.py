#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = [f"C{i:02}" for i in range(1, 29) if i != 27]
NOTES = {}
NA = {"C27": "pure function of the expression text: no schedule, time, I/O or fault can affect it"}
TECH = "deterministic simulation with fault injection: seeded search over deliveries, schedules and faults of the whole program, judged against an executable model"
NOTE = ("Seeded search over many simulated runs of nd's real code in five builds (block sizes 145 B to 2 MiB, scalar and AVX2, with and without "
        "overflow checks); nothing is claimed beyond the cases run. Trusted: the simulated std and tempfile crates, the executable model and the generators in /verif/harness.")
props = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
checks = [dict(property=p, quick_cmd=f"VERIF_TIER=quick ./check.sh {p}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p}",
    evidence_file=f"evidence/{p}.json", technique=TECH, level="exploration", level_note=NOTES.get(p, NOTE)) for p in props if p in CLAIMED]
na = [dict(property=p, reason=NA.get(p, "check under construction")) for p in props if p not in CLAIMED]
m = dict(version=1, setup_cmd="./harness/build.sh",
    hooks=dict(guard="--cfg nd_sim", enable="RUSTFLAGS=--cfg nd_sim together with the rustc wrapper that puts the simulated std and tempfile in place: /verif/harness/build.sh",
               source_commits=["ddb33889baeb46a1a32ddfa55d44d7b97c6bd615"]),
    checks=checks, not_applicable=na)
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
