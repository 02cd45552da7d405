#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
BLST = "Trusts blst's field arithmetic and generator multiplication, which the reference model also uses."
CLAIMED = {
 "C01": ("property-based testing against a reference model (known-secret setups; Lagrange form of the embedded setup)", BLST),
 "C02": ("property-based testing against a reference model (independent transform)", BLST),
 "C03": ("property-based testing against a reference model (quotients under known-secret setups; random combination of all 128 quotients under the embedded one)", BLST),
 "C04": ("property-based testing: honest batches of every shape must be accepted", BLST),
 "C05": ("property-based testing with tampered batches; the truth of each claim is decided exactly from known discrete logarithms", BLST + " A correct verifier accepts a false batch with probability about 2^-250."),
 "C06": ("property-based testing with generated forgeries against weakened challenge derivations", BLST + " Covers the families of weak derivations listed in DESIGN.md, not every imaginable one."),
}
try:
    exec(open(os.path.join(root, "tools", "claimed.py")).read())
except FileNotFoundError:
    pass
checks = []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": t,
            "level": "exploration",
            "level_note": "Randomised search with shrinking: holds on every case generated, no claim beyond them. " + n,
        })
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": checks,
 "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in CLAIMED],
 "notes": "No hooks in /repo: every check drives public interfaces of /repo's crates and bindings, built from the current tree into /verif/target.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
