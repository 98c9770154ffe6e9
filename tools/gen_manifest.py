#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection (seeded search over schedules, faults and forgeries; reference-model and ledger oracles)",
        "level": "exploration",
        "level_note": "Seeded sampling of simulated deployments running the real library code under a scheduler, clock, randomness, network, storage and resolvers the simulator owns; a clean batch is evidence, not proof. Trusts the clean-room askar-crypto stand-in (checked against the repository's test vectors) and the independently written reference model.",
    })
m = {
    "version": 1,
    "setup_cmd": "./check.sh --setup",
    "hooks": {"guard": "none", "enable": "no hooks: the library's DIDResolver and SecretsResolver traits, the askar-crypto and getrandom dependencies and the C library's clock and entropy calls are the seams", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "check.sh rebuilds /repo's crate from source with a generated manifest (crates/didcomm) and runs the simulator (sim/ for the library, usim/ for the callback binding, wsim/ for the JavaScript binding). Replay: target/release/{dsim,usim,wsim} replay FILE. Repaired defects are listed in known_findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
