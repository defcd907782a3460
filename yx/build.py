"""Builds the MIR dumper and runs it over the repository's crate with the repository's own manifest."""
import fcntl
import json
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, "cache")
DRIVER = os.path.join(VERIF, "driver", "target", "release", "yxdriver")


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode("utf8", "replace")


def sysroot():
    rc, o = run(["rustc", "+nightly", "--print", "sysroot"])
    if rc:
        raise BuildError("no nightly toolchain: " + o)
    return o.strip()


def driver():
    if not os.path.exists(DRIVER):
        rc, o = run(["cargo", "+nightly", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "driver"))
        if rc or not os.path.exists(DRIVER):
            raise BuildError("driver does not build:\n" + o[-3000:])
    return DRIVER


def lockfile(repo):
    if not os.path.exists(os.path.join(repo, "Cargo.lock")) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", os.path.join(repo, "Cargo.lock"))


def attempt(repo, td, out, env):
    for sub in ("build", ".fingerprint"):
        d = os.path.join(td, "debug", sub)
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n == "yamux" or n.startswith("yamux-"):
                    shutil.rmtree(os.path.join(d, n), ignore_errors=True)
    shutil.rmtree(os.path.join(td, "debug", "incremental"), ignore_errors=True)
    if os.path.exists(out):
        os.remove(out)
    rc, o = run(["cargo", "+nightly", "check", "--offline", "-p", "yamux", "--lib", "--manifest-path", os.path.join(repo, "Cargo.toml"), "--target-dir", td], env=env)
    return rc, o


def facts(repo, debug=False):
    """path of a freshly written fact file of the crate in `repo` (with debug=True: as debug builds have it)"""
    os.makedirs(CACHE, exist_ok=True)
    root = sysroot()
    drv = driver()
    lockfile(repo)
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = os.path.join(root, "lib") + (":" + env["LD_LIBRARY_PATH"] if env.get("LD_LIBRARY_PATH") else "")
    env["RUSTC_WORKSPACE_WRAPPER"] = drv
    env["CARGO_INCREMENTAL"] = "0"
    env["RUSTFLAGS"] = "-Cdebug-assertions=off -Coverflow-checks=on"
    env.pop("YX_DEBUG", None)
    if debug:
        env["YX_DEBUG"] = "1"
    for k in ("CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    td = os.path.join(CACHE, "target")
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    out = os.path.join(CACHE, "facts-%d.json" % os.getpid())
    env["YX_OUT"] = out
    for n in os.listdir(CACHE):
        if n.startswith("facts-") and n.endswith(".json"):
            try:
                pid = int(n[6:-5])
                if not os.path.exists("/proc/%d" % pid):
                    os.remove(os.path.join(CACHE, n))
            except (ValueError, OSError):
                pass
    rc, o = attempt(repo, td, out, env)
    if rc or not os.path.exists(out):
        # stale or foreign build products: once more from nothing
        shutil.rmtree(td, ignore_errors=True)
        rc, o = attempt(repo, td, out, env)
    if rc or not os.path.exists(out):
        raise BuildError("the crate does not build under the analysis driver:\n" + o[-3000:])
    return out


def settings():
    root = sysroot()
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = os.path.join(root, "lib") + (":" + env["LD_LIBRARY_PATH"] if env.get("LD_LIBRARY_PATH") else "")
    env["RUSTC_WORKSPACE_WRAPPER"] = driver()
    env["CARGO_INCREMENTAL"] = "0"
    env["RUSTFLAGS"] = "-Cdebug-assertions=off -Coverflow-checks=on"
    for k in ("CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "YX_DEBUG", "YX_OUT", "YX_FORBID"):
        env.pop(k, None)
    return env


def messages(out):
    """compiler messages of a cargo run: [(crate, level, code, text, file, line)]"""
    res = []
    for l in out.splitlines():
        if not l.startswith("{"):
            continue
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("reason") != "compiler-message":
            continue
        m = j["message"]
        sp = [x for x in m.get("spans", ()) if x.get("is_primary")] or m.get("spans", ())
        res.append((j.get("target", {}).get("name"), m.get("level"), (m.get("code") or {}).get("code"), m.get("message", ""), sp[0]["file_name"] if sp else "", sp[0]["line_start"] if sp else 0))
    return res


def forget(td):
    for sub in ("build", ".fingerprint"):
        d = os.path.join(td, "debug", sub)
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n == "yamux" or n.startswith("yamux-"):
                    shutil.rmtree(os.path.join(d, n), ignore_errors=True)
    shutil.rmtree(os.path.join(td, "debug", "incremental"), ignore_errors=True)


def unsafe_uses(repo):
    """uses of unsafe code in the crate: [(message, site)]; the build must otherwise succeed"""
    os.makedirs(CACHE, exist_ok=True)
    env = settings()
    lockfile(repo)
    td = os.path.join(CACHE, "target")
    with open(os.path.join(CACHE, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        out = os.path.join(CACHE, "unsafe-%d.json" % os.getpid())
        env["YX_OUT"], env["YX_FORBID"] = out, "1"
        forget(td)
        rc, o = run(["cargo", "+nightly", "check", "--offline", "--message-format=json", "-p", "yamux", "--lib", "--manifest-path", os.path.join(repo, "Cargo.toml"), "--target-dir", td], env=env)
        forget(td)
        done = os.path.exists(out)
        if done:
            os.remove(out)
    ms = [m for m in messages(o) if m[1] == "error"]
    bad = [(m[3], "%s:%d" % (m[4], m[5])) for m in ms if m[2] in ("unsafe_code", "E0453")]
    if bad:
        return bad
    if rc or not done:
        raise BuildError("the crate does not build with unsafe code forbidden:\n" + o[-3000:])
    return []


def witnesses(repo):
    """the witness programs: [(what it shows, None or why it does not build)]"""
    os.makedirs(CACHE, exist_ok=True)
    env = settings()
    env.pop("RUSTC_WORKSPACE_WRAPPER")
    lockfile(repo)
    src = os.path.join(VERIF, "witness", "lib.rs")
    lines = open(src).read().split("\n")
    wit = {i + 1: l.split("//~")[1].strip() for i, l in enumerate(lines) if "//~" in l}
    d = os.path.join(CACHE, "witness")
    with open(os.path.join(CACHE, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        os.makedirs(d, exist_ok=True)
        shutil.copy(src, os.path.join(d, "lib.rs"))
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "yx-witness"\nversion = "0.0.0"\nedition = "2021"\n[lib]\npath = "lib.rs"\n[dependencies]\nyamux = { path = "%s" }\nfutures = { version = "0.3", default-features = false, features = ["std"] }\n[workspace]\n' % os.path.join(repo, "yamux"))
        lf = os.path.join(repo, "Cargo.lock")
        if os.path.exists(lf):
            shutil.copy(lf, os.path.join(d, "Cargo.lock"))
        td = os.path.join(CACHE, "target")
        forget(td)
        rc, o = run(["cargo", "+nightly", "check", "--offline", "--message-format=json", "--manifest-path", os.path.join(d, "Cargo.toml"), "--target-dir", td], env=env)
        forget(td)
        shutil.rmtree(d, ignore_errors=True)
    res = {i: None for i in wit}
    other = []
    for m in messages(o):
        if m[1] != "error" or m[3].startswith("aborting"):
            continue
        if m[0] in ("yx_witness", "yx-witness") and m[5] in wit and m[2]:
            res[m[5]] = res[m[5]] or m[3]
        else:
            other.append(m[3])
    if other or rc and not any(res.values()):
        raise BuildError("the witness programs could not be checked:\n" + "\n".join(other)[:1500] + o[-1500:])
    return [(wit[i], res[i]) for i in sorted(wit)]


if __name__ == "__main__":
    import sys
    print(facts(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
