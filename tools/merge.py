#!/usr/bin/env python3
"""Combines the parts of a sharded run: status and evidence.
usage: merge.py WORKDIR SHARDS EVIDENCE; prints ok, violation or error."""
import json, os, sys

work, n, dest = sys.argv[1], int(sys.argv[2]), sys.argv[3]
stats, evs, hashes = [], [], set()
for i in range(n):
    try:
        stats.append(json.load(open("%s/status.%d" % (work, i))))
    except Exception:
        stats.append({"Status": "error", "Fail": ["shard %d gave no result" % i]})
    try:
        evs.append(json.load(open("%s/evidence.%d" % (work, i))))
        hashes.update(open("%s/evidence.%d.seen" % (work, i)).read().split())
    except Exception:
        pass
bad = [s for s in stats if s["Status"] == "violation"] or [s for s in stats if s["Status"] != "ok"]
out = dict(bad[0] if bad else stats[0])
known = {}
for s in stats:
    for k in s.get("Known") or []:
        k, _, c = k.rpartition(" (")
        known[k] = known.get(k, 0) + int(c.split()[0])
out["Known"] = ["%s (%d times)" % (k, known[k]) for k in sorted(known)]
json.dump(out, open(work + "/status.json", "w"), indent=1)
if evs:
    ev = evs[0]
    cov = ev["coverage"]
    cov["evaluations"] = sum(e["coverage"]["evaluations"] for e in evs)
    cov["distinct_nontrivial"] = len(hashes)
    late = sum(e["coverage"].get("not_reached_in_time", 0) for e in evs)
    if late:
        cov["not_reached_in_time"] = late
    for field in ("classes", "known_findings_met"):
        t = {}
        for e in evs:
            for k, c in (e["coverage"].get(field) or {}).items():
                t[k] = t.get(k, 0) + c
        if t or field == "classes":
            cov[field] = dict(sorted(t.items()))
    samples = list(cov["samples"])
    for e in evs[1:]:
        samples += e["coverage"]["samples"][:1]
    cov["samples"] = samples[:8]
    cov["processes"] = n
    ev["wall_s"] = max(e["wall_s"] for e in evs)
    ev["violations"] = min(1, sum(e["violations"] for e in evs))
    os.makedirs(os.path.dirname(dest) or ".", exist_ok=True)
    with open(dest, "w") as f:
        json.dump(ev, f, indent=2)
print(out["Status"])
