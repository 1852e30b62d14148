"""Writes MANIFEST.json from the registered checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa import checks        # noqa

TECH = {
    "C01": "abstract interpretation of both backends into canonical terms, compared by normalisation (value numbering)",
    "C02": "abstract interpretation into canonical terms, compared with the terms of the projection definition",
    "C03": "abstract interpretation with loop summaries; recurrence and operator terms compared with the solver specification",
    "C04": "effect and alias analysis over storages (views tracked), all paths",
    "C05": "dtype propagation (type inference with NumPy/PyTorch promotion), precision taint",
    "C06": "device propagation (type inference with a symbolic device)",
    "C07": "gradient-flow taint analysis, saved-tensor overwrite analysis",
    "C08": "index dependence analysis of result terms, batched term compared with unbatched term",
    "C09": "symbolic shape propagation over all paths",
    "C10": "canonical terms of scaled inputs compared with unscaled ones",
    "C11": "canonical terms of zero_mean=True compared with pre-centred inputs",
    "C12": "canonical terms compared with the clamp of the unclamped metric, structural bound analysis",
    "C13": "range analysis of the arguments of decibel conversions and normalisations",
    "C14": "dependence and term analysis of the assignment cost and of the gathers that apply it",
    "C15": "cost term and rejection conditions evaluated over an abstract domain of entry classes; dependence of results on patched values",
    "C16": "abstract interpretation of each step of the assignment routine from an arbitrary state; state terms compared with reference steps",
    "C17": "canonical terms of variants compared with the base metric",
    "C18": "canonical terms of top-level functions compared with the backends, signature comparison",
    "C19": "abstract import and interpretation with optional packages absent (exception flow)",
    "C20": "canonical terms of the solved systems compared with the loaded specification",
    "C21": "effect analysis (global state, settings, random generators, output) over all reachable statements",
    "C22": "channel index dependence analysis of pairwise terms",
    "C26": "squared cosines recovered from the result terms: product relation by normal forms, equality of confinement and decibel map",
    "C27": "progress conditions of the assignment routine's steps (ranking argument) on the state terms of each step",
    "C23": "dtype propagation from integer inputs, integer-arithmetic effects",
}
NOTE = {
    None: "Decides the stated rule from the source on every path of every analysed option/size context, sizes and data symbolic; "
          "floating point is treated as real arithmetic except for dtype facts. Trusts the analyser's models of NumPy, PyTorch and "
          "SciPy functions; obligations that leave the modelled fragment are counted as undecided, never as violations.",
}
NA = {
    "C24": "Convergence speed depends on the conditioning of the run-time autocorrelation matrices; no static argument bounds it. The "
           "static content (same system, right recurrence, data-independent iteration count) is C03.",
    "C25": "Rounding error in float32/float64 depends on run-time values and on LAPACK/FFT internals; the analyses treat arithmetic as "
           "real. The static content (no lower precision, exact formula) is C05 and C02.",
    "C28": "A statement about run time on hardware; nothing in the source decides it.",
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 -c 'import sa.checks'", "checks": [], "not_applicable": []}
    for p in ids:
        if p in checks.CHECKS:
            m["checks"].append({
                "property": p,
                "quick_cmd": "python3 -m sa.run %s quick" % p,
                "thorough_cmd": "python3 -m sa.run %s thorough" % p,
                "technique": "static analysis: " + TECH[p],
                "level": "other",
                "level_note": NOTE.get(p, NOTE[None]),
            })
        else:
            m["not_applicable"].append({"property": p, "reason": NA.get(p, "Check not built yet.")})
    m["notes"] = ("All checks are one static analyser (sa/, Python standard library only): an abstract interpreter that reads /repo's source "
                  "on every run and never executes it. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
