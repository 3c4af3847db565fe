"""Writes MANIFEST.json from the registry of checks."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props                                                  # noqa: E402

TECH = {
    "C01": "TLA+ mass invariant evaluated by TLC on recorded executions; loss explained by trace validation; TLC model",
    "C02": "TLA+ ledger invariant evaluated by TLC on recorded executions; TLC model",
    "C03": "TLA+ structural invariant evaluated by TLC on recorded executions; TLC model",
    "C04": "TLC trace validation of ground avalanche passes against the TLA+ transition system",
    "C05": "TLC trace validation of carried-soil avalanche passes against the TLA+ transition system",
    "C06": "TLA+ equilibrium predicate on recorded pass-by-pass executions; liveness on the TLC model",
    "C07": "TLC trace validation of ground displacement against the TLA+ transition system",
    "C08": "TLC trace validation of carried-soil displacement against the TLA+ transition system",
    "C09": "TLA+ relocation relation (exact rational poses) checked by TLC on recorded executions",
    "C10": "TLA+ rasterisation relation checked by TLC on recorded tool placements",
    "C11": "TLA+ interval bookkeeping relation, TLC-enumerated insertion sequences replayed on the code",
    "C12": "TLA+ region predicates checked by TLC on recorded steps and passes",
    "C13": "TLA+ gating state machine, trace validation of recorded request histories",
    "C14": "TLA+ state predicates against the verdicts of the built-in checkers on recorded states",
    "C15": "TLA+ output-folder state machine, trace validation of recorded request histories",
    "C16": "TLA+ fixed-point noise specification checked by TLC on recorded initial terrains",
    "C17": "TLA+ determinism monitor over recorded interleaved histories",
    "C18": "TLA+ exact integer rigid-motion specification checked by TLC on recorded poses",
    "C19": "TLA+ validity predicate over TLC-enumerated argument tuples replayed on the constructors",
    "C20": "TLA+ lattice predicate on recorded long histories",
    "C21": "TLC trace validation of whole steps, phase by phase, against the TLA+ transition system",
    "C22": "TLC enumeration of all outcomes, compared with outcomes of the code over seeds",
}
NOTE = {
    "default": "Holds on every execution recorded in this run (random and enumerated worlds, real code); each is judged by TLC evaluating the TLA+ specification. Trusts the driver's projection of the state, TLC, and that the sampled worlds are representative beyond the enumerated bounds.",
}
NA = [
    {"property": "N01", "reason": "Memory safety of array accesses is below the level of a TLA+ state machine: an out-of-bounds access has no counterpart in the specification. Crashes and libstdc++ assertion failures met by any check are still reported as violations of its property."},
    {"property": "N02", "reason": "Wall-clock budgets on a target machine cannot be expressed or decided in an untimed TLA+ model."},
]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": list(NA),
     "notes": "All checks compile the driver (harness/driver.cpp) together with /repo's current sources in a scratch folder; no hooks in /repo are needed."}
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"))]
for i in ids:
    if i in props.REGISTRY:
        fn, level = props.REGISTRY[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": f"python3 tools/check.py {i}",
            "thorough_cmd": f"python3 tools/check.py {i}",
            "technique": TECH[i], "level": level,
            "level_note": NOTE.get(i, NOTE["default"])})
    elif not i.startswith("N"):
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
