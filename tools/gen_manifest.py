"""Writes MANIFEST.json: one check per property that has obligations registered."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pbsa import obs, props  # noqa: E402,F401

VALUE = "interprocedural value graphs (gated SSA) compared by normal form with the graph of the documented equation"
EFFECT = "interprocedural effect and alias analysis over the syntax tree"
TECH = {
    "C01": "value graphs: substitution of zero frequency, normal form 1",
    "C02": "value graphs: sign substitution, equality of normal forms",
    "C03": "value graphs: axis-exchange substitution and leaf dependence",
    "C04": "value graphs: sign and range rules on documented forms",
    "C05": "value graphs: zero-strength substitution and monotonicity rules",
    "C08": "value graphs of a loop summarised as a sum over the wavelength axis",
    "C17": "constant propagation of the interpolation grid against the database index table",
    "C18": VALUE + "; access-site enumeration", "C19": VALUE + "; read-effect sites",
    "C20": VALUE + " over client call sequences (typestate of the cached atmosphere)",
    "C21": EFFECT + " (writes reaching caller-owned storage)", "C22": EFFECT + " (global state, randomness, environment)",
    "C31": EFFECT + " (guard dominance of OpenCV uses)", "C32": EFFECT + " (path conditions of warnings and errors)",
    "C33": "definite assignment and result completeness on every path", "C34": EFFECT + " (plot call arguments), " + VALUE,
    "C41": VALUE + "; plot call arguments", "C35": "constant propagation of module constants", "C36": "leaf dependence of value graphs (information flow)",
}
NOTE = ("Every obligation is decided on /repo's current syntax trees (interprocedural, all paths, loops summarised); none of its code is executed. Proved = "
        "the graphs have one normal form or a stated structural rule applies; an alarm also needs an interpretation of the leaves that separates the two "
        "graphs, so an undecided obligation stays quiet and is listed in the evidence. Trusts the meaning given to numpy/scipy/OpenCV operations in "
        "pbsa/lib.py, real arithmetic without rounding, and the documented equations restated in pbsa/spec.")
NOT = {
    "C37": "quantifies over the distribution of random draws; a static argument fixes which distribution is drawn from (claimed under C22/C23) but not its sampled statistics",
    "C38": "the energy inside the retained window is a numeric quantity of each run's transfer function; no static bound exists short of evaluating it",
    "C39": "a fact about the stored data values, not about the source; the value files are not part of this checkout",
    "C40": "discretisation error of sampled integrals against their continuous limits depends on runtime magnitudes that no static argument in reach bounds",
}
props_ = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
claimed = [p["id"] for p in props_ if p["id"] in obs.REGISTRY]
m = {
    "version": 1,
    "setup_cmd": "python3-vt -m compileall -q pbsa",
    "checks": [{
        "property": p, "quick_cmd": "python3-vt -m pbsa.check " + p, "thorough_cmd": "VERIF_TIER=thorough python3-vt -m pbsa.check " + p,
        "technique": "static analysis: " + TECH.get(p, VALUE), "level": "other", "level_note": NOTE} for p in claimed],
    "not_applicable": [{"property": p["id"], "reason": NOT.get(p["id"], "not claimed yet: the analysis for it is not built")}
                       for p in props_ if p["id"] not in obs.REGISTRY],
    "notes": "No hooks: /repo carries only fix: commits. See DESIGN.md and known-findings.txt.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "claimed", len(m["not_applicable"]), "not applicable")
