"""python3 -m yx.check <property> : build the facts of /repo, apply the property's rule, report."""
import gc
import importlib
import json
import os
import subprocess
import sys
import time

gc.disable()
sys.setrecursionlimit(100000)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("YX_REPO", "/repo")
sys.path.insert(0, VERIF)

from yx.engine import Facts, Abort  # noqa: E402
from yx.prog import Prog, Result, Missing, at  # noqa: E402
from yx import build  # noqa: E402
from yx.table import RULES, LEVEL, TRUST  # noqa: E402


def known(pid):
    """known findings of this property: {key: text}"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("finding: property=%s " % pid):
                k = l.split(" key=", 1)
                if len(k) == 2:
                    out[k[1]] = l
    return out


def load(opt, debug):
    """the facts of the current tree (or of a fact file given for development)"""
    if opt in sys.argv:
        return json.load(open(sys.argv[sys.argv.index(opt) + 1]))
    path = build.facts(REPO, debug)
    j = json.load(open(path))
    os.remove(path)
    return j


def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    j = load("--facts", False)
    tb = time.time()
    P = Prog(Facts(j))
    P.repo = REPO
    P.debug_facts = lambda: Facts(load("--dfacts", True))
    R = Result(P, pid)
    mod, fn = RULES[pid].split(".")
    err = None
    try:
        getattr(importlib.import_module("yx." + mod), fn)(P, R)
    except Missing as e:
        err = "anchor: %s" % e
    except Abort as e:
        err = "analysis: %s" % e
    if err and not R.viol:
        print("ERROR property=%s %s" % (pid, err))
        return 2
    ks = known(pid)
    viol = [(k, v) for k, v in R.viol.items() if k not in ks]
    for k in R.viol:
        if k in ks:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": LEVEL.get(pid, "other"),
        "coverage": {
            "explanation": "Path-sensitive dataflow over the optimised-for-nothing MIR of /repo's current tree: every path of the entry points below (loops to a fixpoint) is summarised and each obligation of the rule is decided on it.",
            "entry_points": {n: a for n, a in P.analysed.items()},
            "functions_analysed": sorted(P.fncov),
            "paths": P.stats["paths"],
            "obligations": R.n,
            "discharged": R.okc,
            "obligations_by_rule": {k: {"checked": v[0], "discharged": v[1]} for k, v in sorted(R.byrule.items())},
            "checker_cmd": "cd /verif && ./check.sh %s" % pid,
            "trusted_base": TRUST,
        },
        "assumptions": TRUST,
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    ev["coverage"]["explanation"] = ev["coverage"]["explanation"].replace("the optimised-for-nothing MIR", "the MIR (unoptimised, as built by the repository's own toolchain flags)")
    extra = getattr(R, "extra", None)
    if extra:
        ev["coverage"].update(extra)
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, pid + ".json"), "w"), indent=1)
    if viol:
        rp = os.path.join(d, pid + ".violation.txt")
        with open(rp, "w") as f:
            for k, (rule, what, tr, site) in viol:
                f.write("VIOLATION of %s, rule %s\n  %s\n" % (pid, rule, what))
                if site:
                    f.write("  at %s\n" % at(site))
                if tr is not None:
                    f.write("  " + tr.describe().replace("\n", "\n  ") + "\n")
                f.write("\n")
        for k, (rule, what, tr, site) in viol[:12]:
            print("  %s: %s%s" % (rule, what, ("  [%s]" % at(site)) if site else ""))
        if len(viol) > 12:
            print("  ... and %d more" % (len(viol) - 12))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if err:
        print("ERROR property=%s %s" % (pid, err))
        return 2
    print("OK property=%s obligations=%d paths=%d wall=%.1fs (facts %.1fs)" % (pid, R.n, P.stats["paths"], wall, tb - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except build.BuildError as e:
        print("ERROR build: %s" % e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
