#!/usr/bin/env python3
"""runseed.py [-a] ID..: run the seeded change's own check (or with -a every check) on a scratch copy with the change."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from yx import build
from yx.table import RULES


def one(i, allc, patch=None):
    r = "/tmp/rs-%s" % i
    subprocess.run(["cp", "-a", "/tmp/rs-base", r], check=True)
    p = subprocess.run(["git", "apply", patch or "%s/seeded/%s/patch.diff" % (V, i)], cwd=r, capture_output=True, text=True)
    if p.returncode:
        return "%-40s DOES NOT APPLY %s" % (i, p.stderr)
    try:
        f = build.facts(r)
    except build.BuildError as e:
        return "%-40s BUILD %s" % (i, str(e)[-800:])
    g = "/tmp/rs-%s.json" % i
    os.rename(f, g)
    meta = {} if patch else json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    own = meta.get("property")
    out = []
    for c in (sorted(RULES) if allc or own not in RULES else [own]):
        p = subprocess.run([sys.executable, "-m", "yx.check", c, "--facts", g], cwd=V, capture_output=True, text=True, env=dict(os.environ, YX_REPO=r))
        if p.returncode:
            out.append("%s%s=%d" % ("*" if c == own else "", c, p.returncode))
            if not allc or "-v" in sys.argv:
                out.append("\n   " + p.stdout.strip().replace("\n", "\n   ")[:1200])
    shutil.rmtree(r)
    os.remove(g)
    return "%-40s own=%s %s" % (i, own, " ".join(out) or "MISSED")


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    allc = "-a" in sys.argv
    patches = {}
    if "-p" in sys.argv:
        patches = {os.path.basename(x).replace(".diff", ""): os.path.abspath(x) for x in a}
        a = sorted(patches)
    subprocess.run("rm -r -f /tmp/rs-base; git clone -q /repo /tmp/rs-base; cp /repo/Cargo.lock /tmp/rs-base/", shell=True, check=True)
    ids = a or sorted(os.listdir(V + "/seeded"))
    with ThreadPoolExecutor(6) as ex:
        for l in ex.map(lambda i: one(i, allc, patches.get(i)), ids):
            print(l, flush=True)
