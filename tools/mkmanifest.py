#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
T = {
 "C01": "property-based differential test against exact rational determinants, plus enumeration of extreme coordinates",
 "C02": "property-based differential test against exact rational distances and dot products",
 "C03": "property-based differential test against an exact angular order, plus order-law checks over lists",
 "C04": "property-based differential test against the perturbed-determinant definition",
 "C05": "property-based differential test against exact set intersection of segments",
 "C06": "property-based differential test against an exact perturbed crossing model",
 "C07": "property-based differential test against exact rational line intersection",
 "C08": "property-based differential test against all-pairs exact intersection",
 "C09": "property-based differential test of acceptance against an exact simplicity oracle",
 "C10": "property-based differential test against an exact point-in-polygon oracle",
 "C11": "property-based differential test against exact half-plane tests",
 "C12": "property-based differential and metamorphic tests against exact sums",
 "C13": "property-based differential test against a reference hull",
 "C14": "property-based differential test against a reference hull of simple polygons",
 "C15": "property-based test of the exact partition invariant over generated simple polygons",
 "C16": "property-based test of result invariants over generated point sets, chains and random streams, with operation budgets",
 "C17": "property-based differential test against an exact monotonicity oracle",
 "C18": "property-based test of result invariants and success conditions over generated points and centres",
 "C19": "property-based differential test against an exact visibility oracle",
 "C20": "property-based test of result invariants over sizes, integer types and random streams",
 "C21": "model-based testing of navigation and iteration histories against a cyclic-list model",
 "C22": "model-based testing of operation histories against a set model",
 "C23": "property-based round-trip and monotonicity tests",
 "C24": "property-based algebraic-law tests over exact scalars",
 "C25": "differential testing across scalar types and metamorphic translation and scaling",
 "C26": "property-based differential test against an exact ear oracle",
 "C27": "property-based test of order laws and against the order of exact values, plus enumeration of special-value triples",
 "C28": "property-based round-trip and differential tests against exact rational values",
 "C29": "metamorphic testing: repeated, interleaved and cross-thread calls on equal arguments and random streams",
 "C30": "property-based test of operation counts against growth envelopes over generated sizes and distributions",
 "C31": "stateful (model-based) testing of operation chains, with a differential comparison against a freshly built polygon",
}
have = {p["id"] for p in props if os.path.exists(os.path.join(root, "harness/src/bin", p["id"].lower() + ".rs"))}
checks = [{
    "property": p["id"],
    "quick_cmd": "./run.sh " + p["id"],
    "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p["id"],
    "technique": T[p["id"]],
    "level": "exploration",
    "level_note": "Generated-input search against an explicit exact oracle; shrinks a failure to a replay file. DESIGN.md states the domain, oracle and bounds of " + p["id"] + ".",
} for p in props if p["id"] in have]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in have]}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
