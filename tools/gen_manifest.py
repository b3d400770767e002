#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with rules is claimed."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(V, "engine"))
from framework import RULES
import rules

NA = {
    "C28": "quantifies over the host's scheduling and wall-clock latency, which no argument over the source can bound; the source-level part (a callback is always requested no later than the earliest deadline) is C09",
    "C29": "depends on what performance.now() returns at run time (an imported host function); the source only converts that value, which C16 covers",
}
TECH = "path-partitioned value-numbering dataflow over the type-checked MIR, with per-path typestate/ordering obligations"
TECHS = {
    "C34": "inventory of unchecked operations over the type-checked MIR, ownership (typestate) of raw references on every path, and cycle search in the graph of owning types",
    "C35": "ranking of every trip around every loop over the type-checked MIR's paths (bounded counters, shrinking collections, justified retries), and cycle search in the resolved call graph",
    "C25": "lock-class order and held-while-calling analysis over the resolved call graph and drop glue, on every path",
    "C30": "auto-trait obligations solved by the compiler's trait solver under all assumptions on the type parameters; pointee and pin checks over the type-checked MIR",
    "C33": "type-checking under every feature combination, with compile-pass and compile-fail witness programs",
    "C36": "comparison of every function's MIR under every feature set, and for wasm32, with its MIR in the builds the other checks analyse",
}
NOTES = {
    "C34": "every unchecked operation of the crate, ownership of every raw reference on every path of the functions that hold one, and the graph of owning types; memory orders by acquire/release rules, not by a mechanised memory model",
    "C35": "every loop of the crate on every path the rules follow, and every cycle of the resolved call graph; iterators over std's collections are finite by assumption; lock-free retries end when no other thread interferes",
    "C30": "all combinations of assumptions on each type parameter, decided by rustc's own trait solver",
    "C33": "all ten distinct feature sets; the witnesses listed in engine/rules/api.py, each tried under every feature set it applies to; type-checked for the host target",
    "C36": "every body of the crate (functions, closures, constants) under all ten distinct feature sets and for both targets, debug assertions off and overflow checks on; equal MIR is equal behaviour, unequal MIR is reported even where it may behave alike",
}
NOTE = {
    "C01": "ordering, generation and deadline obligations on every path that creates, resets, schedules, expires and polls a sleep; weak-memory reasoning by the acquire/release rules listed in DESIGN.md",
    "C06": "linearisation points, memory orders and reference balance of the hand-over list on every path",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
claimed = {p for r in RULES for p in r.all_props}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in claimed:
        checks.append({"property": i, "quick_cmd": "python3 engine/check.py " + i, "thorough_cmd": "python3 engine/check.py --thorough " + i,
                       "technique": TECHS.get(i, TECH), "level": "other",
                       "level_note": NOTES.get(i) or NOTE.get(i, "every path of the anchored functions, loops to a fixed point, for all inputs; library calls by the models listed in DESIGN.md; the argument that joins the rules into the property is in DESIGN.md, not mechanised")})
    else:
        na.append({"property": i, "reason": "rules not written yet"})
m = {"version": 1, "setup_cmd": "python3 engine/dump.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
