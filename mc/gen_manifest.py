#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.realpath(__file__))
IMPL = "exhaustive bounded enumeration on the real "
T = {
 "C01": (IMPL + "backends (operands x predicates x option sets)", "Every operand tuple of a structured alphabet, every predicate and option set in the grid, executed on the built backends and compared bit for bit with hardware IEEE. Assumes the host FPU; values outside the alphabet are not covered."),
 "C02": (IMPL + "backend with the random draws as an enumerated choice tree", "All draw sequences over a draw alphabet (extremes, 1/2, ...) for all operand tuples, modes, precisions and options of the grid, against a reference law in quad precision. Random source replaced at the get_rand_* seam."),
 "C03": (IMPL + "backend with the random draws as an enumerated choice tree", "As C02 for the integer backend, at the two precisions it accepts."),
 "C04": (IMPL + "backend with the random masks as an enumerated choice tree", "All precisions, operators, modes, draw sequences over a mask alphabet and operand tuples of the alphabet against a bit-level reference."),
 "C05": (IMPL + "backend with the random draws as an enumerated choice tree", "All operand pairs of a cancellation-rich alphabet, tolerances and draws against the law; warnings observed on stderr."),
 "C06": (IMPL + "backend (every precision/range pair x rounding-critical operands)", "Every (precision, range) pair of both types, with every rounding-critical mantissa/exponent class, against an exact integer reference; thorough adds all 2^32 floats for 12 formats."),
 "C07": (IMPL + "backend (operations x modes x options x operands)", "All operations on the operand alphabet for a grid of formats, modes, presets, daz/ftz and error modes against the composed reference."),
}
TODO = {}
exec(open(os.path.join(HERE, "manifest_more.py")).read())
m = {"version": 1, "setup_cmd": "python3 mc/setup.py",
     "checks": [], "not_applicable": [],
     "notes": "mc/check.py <id> builds /repo's working tree into /verif/.cache and explores it; see DESIGN.md."}
for p in sorted(T):
    m["checks"].append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 mc/check.py " + p,
                        "thorough_cmd": "VERIF_TIER=thorough python3 mc/check.py " + p,
                        "technique": "model checking: " + T[p][0], "level": "model_checking",
                        "level_note": T[p][1]})
for p, why in sorted(TODO.items()):
    if p not in T:
        m["not_applicable"].append({"property": p, "reason": why})
json.dump(m, open(os.path.join(os.path.dirname(HERE), "MANIFEST.json"), "w"), indent=1)
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(HERE), "properties.jsonl"))]
assert sorted(ids) == sorted(list(T) + [t for t in TODO if t not in T]), set(ids) ^ set(list(T) + list(TODO))
