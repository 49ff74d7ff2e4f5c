#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks which exist in harness/src/props."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
have = set(re.findall(r'"(C\d\d)"', open(f"{here}/harness/src/props/mod.rs").read()))
NOTE = "Generated cases over real loopback sockets against an independent implementation of the protocol; holds for the cases explored (counts, rule and samples in the evidence). Trusts the harness (wire.rs, peer.rs), tokio, bb8 and the kernel's TCP."
extra = {}
checks, na = [], []
for line in open(f"{here}/properties.jsonl"):
    i = json.loads(line)["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh check {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh check {i}",
            "technique": "property-based testing (proptest generators and shrinking, scripted protocol peers, reference oracle)",
            "level": "exploration",
            "level_note": NOTE,
        })
    else:
        na.append({"property": i, "reason": "check not written yet"})
json.dump({
    "version": 1,
    "setup_cmd": "./run.sh build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: everything is observed through the public API and sockets. ./run.sh replay FILE re-runs a replay file.",
}, open(f"{here}/MANIFEST.json", "w"), indent=1)
