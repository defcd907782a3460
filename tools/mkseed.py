#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID..]: write seeded/<id>/ from a spec: SEEDS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]
tools/mkseed.py --try ID..: confirm in a scratch copy that the seed builds, keeps the tests green and is shown by its demo."""
import json, os, shutil, subprocess, sys, runpy, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = os.path.join(V, "tools", "seedkit")
WORK = "/tmp/seedwork"


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def scratch():
    r = WORK + "/repo"
    if not os.path.isdir(r):
        os.makedirs(WORK, exist_ok=True)
        sh("cp -a /repo %s" % r)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=r)
    return r


def write(s):
    r = scratch()
    for f, old, new in s["edits"]:
        p = os.path.join(r, "yamux/src", f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    d = sh("git diff", cwd=r).stdout
    sh("git checkout -q -- .", cwd=r)
    o = os.path.join(V, "seeded", s["id"])
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(d)
    for n in ("support.rs", "demo.sh"):
        shutil.copy(os.path.join(KIT, n), o)
    os.chmod(o + "/demo.sh", 0o755)
    shutil.copy(os.path.join(KIT, "Cargo.lock"), o + "/Cargo.lock.txt")
    open(o + "/demo.rs", "w").write("use super::support::*;\n\n" + s["demo"].strip() + "\n")
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)


def tryit(i):
    r = scratch()
    o = os.path.join(V, "seeded", i)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", DEMO_TARGET=WORK + "/demo-target", RUSTC_WRAPPER="")
    a = sh(o + "/demo.sh", cwd=r, env=env)
    x = sh("git apply %s/patch.diff" % o, cwd=r)
    b = sh(o + "/demo.sh", cwd=r, env=env)
    env["CARGO_TARGET_DIR"] = WORK + "/target"
    t = sh("timeout 300 cargo nextest run --workspace --all-features --offline --no-fail-fast --test-threads 8", cwd=r, env=env)
    sh("git checkout -q -- .", cwd=r)
    ok = a.returncode == 0 and x.returncode == 0 and b.returncode != 0 and "panicked" in b.stdout and t.returncode == 0
    print("%s %s clean=%d patched=%d tests=%d" % ("GOOD" if ok else "BAD ", i, a.returncode, b.returncode, t.returncode), flush=True)
    if not ok:
        print(a.stdout[-1500:] if a.returncode else "", x.stdout, b.stdout[-2500:] if "panicked" not in b.stdout else "", t.stdout[-1500:] if t.returncode else "")


if sys.argv[1] == "--try":
    for i in sys.argv[2:] or sorted(os.listdir(V + "/seeded")):
        tryit(i)
else:
    for s in runpy.run_path(sys.argv[1])["SEEDS"]:
        if len(sys.argv) < 3 or s["id"] in sys.argv[2:]:
            write(s)
            print("wrote", s["id"])
