#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
PENDING = set(sys.argv[1:])   # ids not built yet

HIST = ("property-based testing: generated request histories against an executable reference model, with shrinking",
        "exploration",
        "Random search: no violation among the histories generated (counts, classes and samples in the evidence); it does not establish absence. Trusts the reference model and the in-memory host in harness/world.")
FAULT = ("property-based fault injection: every host call of generated scenarios made to fail in every way, judged by a fail-closed oracle",
         "fault_enumeration",
         "For each generated scenario every recorded host call is failed with every failure kind (exhaustive for single faults, sampled for pairs); the scenarios themselves are sampled. Trusts the oracle and the in-memory host.")
INPUT = ("property-based testing: generated inputs against an independent model or round-trip, with shrinking",
         "exploration",
         "Random search plus an enumerated core of small inputs; no violation among the inputs generated. Trusts the independent model in the harness.")
T = {i: HIST for i in ids}
for i in ("X01", "X02", "L08"):
    T[i] = FAULT
for i in ids:
    if i[0] == "L" and i != "L08" or i == "A11":
        T[i] = INPUT
T["X03"] = ("property-based fuzzing: structured random and mutated requests and texts, oracle: no panic, no hang, response within the repertoire",
            "exploration", "Random search over byte-level and structured requests; no crash among those generated. Hangs are detected by a generous watchdog.")
T["X04"] = ("property-based schedule exploration: generated interleavings of host calls under a deterministic gate, compared with isolated runs; plus parallel runs under the race detector",
            "exploration", "Interleavings at host-call granularity are generated and compared with isolated runs; data races are looked for in parallel runs with the Go race detector. Sampled, not exhaustive.")
T["T06"] = ("property-based testing: generated redemption histories and interleavings of concurrent redemptions under a deterministic gate, against an at-most-once invariant",
            "exploration", "Histories and host-call-level interleavings of redemptions are sampled; small interleavings are enumerated. Assumes the store disables a session atomically.")
checks, na = [], []
for i in ids:
    if i in PENDING:
        na.append({"property": i, "reason": "The check is not built yet."})
        continue
    t, l, n = T[i]
    checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "env VERIF_TIER=thorough ./check.sh " + i,
                   "evidence_file": "evidence/%s.json" % i, "technique": t, "level": l, "level_note": n})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "Checks use only goidc's exported interface, so /repo carries no hooks. jwk_endpoint.go imports a module that is not installed; harness/shim stands in for it (L06) and the other checks leave that file out by overlay."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
