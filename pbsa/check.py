"""python3-vt -m pbsa.check C01 [...]: decide properties from /repo's source."""
import json
import os
import re
import sys
import time

sys.setrecursionlimit(40000)

from . import obs  # noqa: E402
from .interp import Anchor  # noqa: E402
from . import props  # noqa: E402,F401

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("PBSA_EVIDENCE", os.path.join(HERE, "evidence"))
KNOWN = os.path.join(HERE, "known-findings.txt")


def known_findings():
    """lines  'finding: property=Cxx key=<key> <what fails>'"""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def run(pid, tier, seed, verbose=False):
    t0 = time.time()
    c = obs.Check(pid, tier, seed, known_findings())
    for f in obs.REGISTRY[pid]:
        c.group(f.__name__, f, c)
    n = {}
    for o in c.obl:
        n[o["verdict"]] = n.get(o["verdict"], 0) + 1
    bad = [o for o in c.obl if o["verdict"] == obs.VIOLATED]
    os.makedirs(EVID, exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other", "wall_s": round(time.time() - t0, 3), "violations": len(bad),
        "coverage": {
            "explanation": "Static analysis of /repo/src/pybsm as it stands: value graphs (gated SSA, interprocedural, loops summarised by "
                           "recurrences) and effect summaries are built from the syntax tree and compared, by normal form, with the graphs of the "
                           "documented equations; structural obligations inspect recorded effects. No code of the repository is run.",
            "obligations": len(c.obl), "discharged": n.get(obs.PROVED, 0), "undecided": n.get(obs.UNDECIDED, 0),
            "known_findings": n.get(obs.KNOWN, 0), "violated": len(bad),
            "functions_analysed": sorted(q for q in c.visited if q.startswith("pybsm.")),
            "effects_recorded": sum(len(S.I.effects) for S in c.worlds),
            "statements_interpreted": sum(S.I.steps for S in c.worlds),
            "rules": sorted({o["rule"] for o in c.obl}),
            "samples": [dict(obligation=o["name"], where=o["where"], rule=o["rule"], verdict=o["verdict"]) for o in c.obl],
            "undecided_detail": [dict(obligation=o["name"], why=o["detail"]) for o in c.obl if o["verdict"] == obs.UNDECIDED],
        },
        "assumptions": [
            "numpy, scipy and OpenCV operations mean what their documentation says",
            "parameters lie in their documented physical domains (pbsa/api.py, pbsa/harness.py)",
            "real arithmetic: rounding is not modelled",
        ],
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for o in c.obl:
        if o["verdict"] == obs.KNOWN:
            print("KNOWN-FINDING: property=%s %s" % (pid, o["detail"]))
    print("%s: %d obligations, %d proved, %d undecided, %d known findings, %d violated (%.1fs, %d functions)" % (
        pid, len(c.obl), n.get(obs.PROVED, 0), n.get(obs.UNDECIDED, 0), n.get(obs.KNOWN, 0), len(bad), time.time() - t0,
        len(ev["coverage"]["functions_analysed"])))
    if verbose:
        for o in c.obl:
            if o["verdict"] in (obs.UNDECIDED,) or verbose > 1:
                print("   %-10s %s  [%s] %s" % (o["verdict"], o["name"], o["where"], o["detail"] if o["verdict"] == obs.UNDECIDED else ""))
    rep = os.path.join(EVID, pid + ".violation.json")
    if bad:
        with open(rep, "w") as f:
            json.dump(bad, f, indent=1, default=str)
        for o in bad:
            print("  %s: %s: rule '%s' broken: %s" % (o["where"], o["name"], o["rule"], json.dumps(o["detail"], default=str)[:900]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if os.path.exists(rep):
        os.remove(rep)
    return 0


def main(argv):
    verbose = 0
    pids = []
    for a in argv:
        if a == "-v":
            verbose += 1
        else:
            pids.append(a)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if pids == ["all"]:
        pids = sorted(obs.REGISTRY)
    rc = 0
    for p in pids:
        try:
            rc = max(rc, run(p, tier, seed, verbose))
        except Anchor as e:
            print("%s: analysis broken: public construct not found: %s" % (p, e))
            rc = 2
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
