#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed if its check exists."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
T = {
 "C01": "model-based stateful property testing (proptest) against plain cells",
 "C02": "model-based stateful property testing (proptest): changed-flag/writer-count model, wake obligations",
 "C03": "model-based stateful property testing (proptest): slot model of the channel",
 "C04": "model-based stateful property testing (proptest): scripted input, per-child freshness and wake oracle",
 "C05": "property-based testing (proptest): list-function oracles over scripted inputs and poll schedules",
 "C06": "property-based testing (proptest): recomputation from the latest inputs at quiescence",
 "C07": "property-based testing (proptest): follow-the-latest model, diff replay",
 "C08": "property-based testing (proptest): latest-work models over generated completion orders",
 "C09": "property-based testing (proptest): sequence oracle over generated inputs and callback completion orders",
 "C10": "differential stateful property testing (proptest) against Vec",
 "C11": "stateful property testing (proptest): diff replay against snapshots, wake obligations",
 "C19": "differential stateful property testing (proptest) against BTreeMap with diff replay",
 "C20": "property-based testing (proptest): recomputation from the map's contents",
 "C21": "property-based testing (proptest): generated pipelines on a strict wake-driven executor, recomputation oracle",
 "C22": "property-based testing (proptest) over generated scripts and generated thread schedules",
 "C23": "property-based testing (proptest) of concurrent programs under generated schedules",
 "C24": "property-based testing (proptest) of concurrent programs under generated schedules, diff replay",
 "C25": "differential property testing (proptest) against serde of the plain types, generated documents",
 "C26": "stateful property testing (proptest) with counted drops",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{root}/harness/src/bin/{i.lower()}.rs"):
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": T.get(i, "property-based testing (proptest): generated legal diff histories, recomputation from the full contents after every step"),
            "level": "exploration",
            "level_note": "Generated-input search with a fixed number of cases per tier, seeded by VERIF_SEED and shrunk to a replay file; nothing is claimed beyond the cases run. Trusts the reference model in harness/src/bin/%s.rs%s." % (
                i.lower(),
                "; schedules preempt at lock and atomic operations, wakeups, callbacks and at the basic blocks of the library, sequentially consistently (no weak memory effects, and an operation of std or of the mpsc queue is one step)" if i in ("C22", "C23", "C24") else ""),
        })
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {
   "guard": "futures_signals_verif",
   "enable": "RUSTFLAGS=--cfg futures_signals_verif (set by /verif/env.sh)",
   "source_commits": ["733ee6a", "6b6518c"],
 },
 "checks": checks,
 "not_applicable": na,
 "notes": "DESIGN.md describes the checks; known_findings.txt lists the genuine defects found and fixed.",
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
