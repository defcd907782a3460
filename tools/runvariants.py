#!/usr/bin/env python3
"""variants.py FILE.py [-q] [-t] [ID..]: FILE defines V = [dict(id, kind="same"|"bug", prop=None|"Cxx", edits=[(file, old, new)])].
Every check is run on every variant in a scratch copy: a "same" variant must leave all quiet, a "bug" must raise its property's check.
-q: for bugs run only the property's own check.  -t: also run the repository's tests on the variant."""
import gc, importlib, json, os, runpy, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
VF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VF)
WORK = "/tmp/variants.%d" % os.getpid()


def child(facts, repo, ids):
    gc.disable()
    sys.setrecursionlimit(100000)
    from yx.engine import Facts, Abort
    from yx.prog import Prog, Result, Missing
    from yx import build
    from yx.table import RULES
    P = Prog(Facts(json.load(open(facts))))
    P.repo = repo

    def dbg():
        f = build.facts(repo, True)
        j = json.load(open(f))
        os.remove(f)
        return Facts(j)
    P.debug_facts = dbg
    for c in ids:
        R = Result(P, c)
        m, fn = RULES[c].split(".")
        t = time.time()
        err = None
        try:
            getattr(importlib.import_module("yx." + m), fn)(P, R)
        except (Missing, Abort) as e:
            err = "%s: %s" % (type(e).__name__, e)
        except Exception as e:
            import traceback
            err = "CRASH %s" % traceback.format_exc()[-600:]
        if R.viol or err:
            from yx.prog import at
            print("%s %s" % (c, "VIOLATION" if R.viol else "ERROR"))
            if err:
                print("      ", err[:600])
            for k, (rule, what, tr, site) in list(R.viol.items())[:6]:
                print("      ", rule, what[:230], "[%s]" % at(site) if site else "")
    sys.stdout.flush()
    os._exit(0)


def one(v, quick, tests):
    from yx import build
    from yx.table import RULES
    r = "%s/%s" % (WORK, v["id"])
    subprocess.run(["cp", "-a", WORK + "/base", r], check=True)
    try:
        for f, old, new, *every in v["edits"]:
            p = os.path.join(r, "yamux/src", f)
            t = open(p).read()
            if t.count(old) != 1 and not (every and old in t):
                return v, "EDIT", "%s: %d matches of %r" % (f, t.count(old), old[:80])
            open(p, "w").write(t.replace(old, new))
        try:
            f = build.facts(r)
        except build.BuildError as e:
            return v, "BUILD", str(e)[-1500:]
        g = r + ".json"
        os.rename(f, g)
        ids = [v["prop"]] if quick and v["kind"] == "bug" and v.get("prop") in RULES else sorted(RULES)
        p = subprocess.run([sys.executable, __file__, "--child", g, r] + ids, capture_output=True, text=True)
        os.remove(g)
        o = p.stdout + (p.stderr[-800:] if p.returncode else "")
        if tests:
            t = subprocess.run("cargo nextest run --workspace --all-features --offline --no-fail-fast", shell=True, cwd=r, capture_output=True, text=True,
                               env=dict(os.environ, CARGO_TARGET_DIR=WORK + "/target", CARGO_NET_OFFLINE="true"))
            o += "TESTS %s\n" % ("pass" if t.returncode == 0 else "FAIL " + t.stderr[-400:])
        return v, "RAN", o
    finally:
        shutil.rmtree(r)


def main():
    a = [x for x in sys.argv[2:] if not x.startswith("-")]
    subprocess.run("rm -r -f %s; mkdir -p %s; git clone -q /repo %s/base; cp /repo/Cargo.lock %s/base/" % ((WORK,) * 4), shell=True, check=True)
    V = [v for v in runpy.run_path(sys.argv[1])["V"] if not a or v["id"] in a]
    tests = "-t" in sys.argv
    bad = 0
    with ThreadPoolExecutor(1 if tests else 6) as ex:
        for v, st, o in ex.map(lambda v: one(v, "-q" in sys.argv, tests), V):
            fired = [l.split()[0] for l in o.splitlines() if l[:1] == "C" and l.split()[1:2] == ["VIOLATION"]]
            errs = [l.split()[0] for l in o.splitlines() if l[:1] == "C" and l.split()[1:2] == ["ERROR"]]
            if st != "RAN":
                res = st
            elif v["kind"] == "same":
                res = "quiet" if not fired and not errs else "NOISY"
            else:
                res = "caught" if v.get("prop") in fired or not v.get("prop") and fired else "MISSED"
            print("%-34s %-4s %-4s %s  fired=%s err=%s" % (v["id"], v["kind"], v.get("prop") or "", res, ",".join(fired), ",".join(errs)), flush=True)
            if res not in ("quiet", "caught") or "TESTS FAIL" in o or "-v" in sys.argv:
                bad += 1
                print("    " + o.strip().replace("\n", "\n    ")[:4000], flush=True)
    print("%d of %d need attention" % (bad, len(V)))
    shutil.rmtree(WORK)


if sys.argv[1] == "--child":
    child(sys.argv[2], sys.argv[3], sys.argv[4:])
main()
