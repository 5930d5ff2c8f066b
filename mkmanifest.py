#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the implemented specs."""
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
AI = "abstract interpretation of the Python source over symbolic value terms; "
TECH = {
    "C01": AI + "container round-trip obligations (flatten, rebuild, compare every observable)",
    "C02": AI + "rebuild with fresh leaf symbols, value-number congruence with a newly built object",
    "C03": AI + "effect/cache analysis: histories of calls leave every later value number unchanged",
    "C04": AI + "write-effect analysis: journal of stores to arguments, globals and containers",
    "C05": AI + "trace-level (taint) dataflow to concretisation sinks, traced/eager value-number congruence",
    "C06": AI + "escape analysis of trace-level values into surviving objects and globals",
    "C07": AI + "dependence and derivative congruence of value terms (stop-gradient, casts, custom rules)",
    "C08": AI + "finiteness and limits of values and symbolic derivatives on every primitive at special points",
    "C09": AI + "array/pointwise value-number congruence and axis labels",
    "C22": AI + "block-matrix operations against dense matrix terms over a set of block layouts",
    "C23": AI + "must-raise / must-return analysis of argument validation on every abstract path",
    "C31": AI + "dtype lattice dataflow (narrowing, integer casts, integer-range arithmetic)",
    "C32": AI + "option propagation: option symbols must reach the term of the computation they name",
}
DEFAULT = AI + "congruence of the computed term with the defining formula (value numbering, random interpretation)"
NOTE = ("Decides the property for every value of the symbolic inputs (congruence of value numbers; differences are confirmed on sampled "
        "valuations) at the array sizes, object configurations and options enumerated in the spec. Trusts the transfer functions "
        "for numpy/jax entry points; floating-point rounding is outside. ")
EXTRA = {}
NA = {
    "N01": "Quantifies over numerical agreement of two floating-point programs (one of them absent here) to a tolerance; no sound static argument bounds it. The structural part, that the published formulas are coded, is C11-C17.",
    "N02": "Conditioning is a run-time property of the matrix entries; nothing in the shape of the code decides it.",
    "N03": "Signs and monotonicity depend on run-time magnitudes of tabulated quantities; a static range analysis of the tables is not sharp enough to decide them.",
}

props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif not os.path.exists(os.path.join(here, "sa", "specs", i.lower() + ".py")):
        na.append(dict(property=i, reason="Decidable by the same analysis, but its specification is not written yet."))
    else:
        checks.append(dict(property=i, quick_cmd=f"python3-vt run.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3-vt run.py {i}",
                           technique=TECH.get(i, DEFAULT), level="other", level_note=NOTE + EXTRA.get(i, "")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
