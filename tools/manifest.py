#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a check program is claimed."""
import json, os
T = {
"C01": ("differential runtime monitoring of generated circuit programs", "random and edge programs on four curves; sizes up to a few hundred gates"),
"C02": ("online oracle: recorded verifier multi-scalar multiplication against an independent reference equation set; forged witnesses", "sampled programs and forgeries; reference re-derives all equations"),
"C03": ("fault injection into live proofs with the verifier's verdict as monitored event", "every component of sampled proofs times a mutation catalogue"),
"C04": ("trace monitor over recorded transcript operations of both sides", "sampled programs; per-event perturbation"),
"C05": ("hostile-input workload under overflow checks, panic hook, allocation monitor and watchdog", "mutational and structural fuzzing from seeds; not coverage-exhaustive"),
"C06": ("offline comparison of batch and individual verdicts over generated histories with correlated faults", "sampled batches up to 8 proofs"),
"C07": ("differential codec monitoring with byte-level fault injection", "every truncation and every byte of sampled proofs"),
"C08": ("monitor over recorded prover multi-scalar multiplications and pairwise freshness checker", "sampled programs; randomness replay histories"),
"C09": ("schedule stress with differential oracle; race sanitizer on the parallel code", "sampled schedules; thread pools of 1 to 8"),
"C10": ("differential monitoring against an independent generator derivation", "capacities up to 512, parties up to 8"),
"C11": ("differential monitoring against naive double-and-add", "sampled vectors and parameters"),
"C12": ("differential monitoring against a plain-arithmetic model", "sampled operator sequences and programs"),
"C13": ("differential monitoring of tree construction against an independent reference", "sampled sets, heights up to 6"),
"C14": ("end-to-end runtime oracle over generated trees and leaves", "sampled trees; every leaf of small trees"),
"C15": ("fault injection on paths and witnesses; recorded-constraint satisfaction oracle", "sampled trees; mutation catalogue and targeted cheating provers"),
"C16": ("end-to-end runtime oracle and cheating-prover fault injection on batched membership", "sampled trees and tuples"),
"C17": ("trace monitor: freshness, blinding and shape independence over recorded showings", "sampled histories of showings"),
"C18": ("recorded-constraint monitor: satisfaction, mutation and forged-witness oracle", "sampled lists up to 64"),
"C19": ("recorded-constraint monitor and differential table oracle", "all indices; all table entries of four curves"),
"C20": ("recorded-constraint monitor with forged witnesses", "sampled points incl. exceptional ones"),
"C21": ("recorded-constraint monitor: local uniqueness by Jacobian rank and forged witnesses", "sampled points and scalars on four curves"),
"C22": ("recorded-constraint monitor and end-to-end verdicts", "all widths 1..64 with edge and wrapped values"),
"C23": ("end-to-end runtime oracle over generated pours", "sampled pours"),
"C24": ("fault injection on pours, keys and transactions with verdict oracle", "mutation catalogue on sampled pours"),
"C25": ("differential codec monitoring with byte-level fault injection", "every truncation; invalid point at every position"),
"C26": ("runtime oracle over coin histories against naive openings", "sampled coins"),
"C27": ("allocator instrumentation scanning released blocks for witness values", "sampled programs and endings"),
}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"/verif/harness/src/bin/{i.lower()}.rs"):
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "The real crates are built from /repo with two patched dependencies (vendor/merlin, vendor/ark-ec) whose thread-local monitors record transcript operations and multi-scalar multiplications; no hooks in /repo. seeds come from VERIF_SEED."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
