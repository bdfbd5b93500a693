"""Builds the fact driver and runs it (as rustc wrapper) over /repo's current source."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", os.path.join(VERIF, ".cache"))
TARGET = "x86_64-unknown-linux-gnu"
DRIVER_DIR = os.path.join(VERIF, "driver")

PKGS = {
    "xbow": ["x-bow"],
    "all": ["async_ui_web", "x-bow", "async_ui_web_draggable", "async_ui"],
}
EXPECT = {
    "xbow": ["x_bow", "x_bow_macros"],
    "all": ["x_bow", "x_bow_macros", "async_ui", "async_ui_internal_utils", "async_ui_web",
            "async_ui_web_core", "async_ui_web_html", "async_ui_web_macros", "async_ui_web_draggable"],
}


class BuildError(Exception):
    pass


def env(extra=None):
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN",
              "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "RUSTC"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    if extra:
        e.update(extra)
    return e


def _sources(root):
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "node_modules", ".cache"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".md", ".html", ".css")):
                out.append(os.path.join(d, f))
    return out


def digest(*roots):
    h = hashlib.sha256()
    for r in roots:
        for p in _sources(r):
            h.update(os.path.relpath(p, r).encode())
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def _run(cmd, cwd, e, what):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (what, p.stdout[-4000:]))
    return p.stdout


def ensure_lock():
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lock)   # git-ignored upstream; build.sh does the same


def sysroot_lib():
    s = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env(), capture_output=True, text=True)
    return s.stdout.strip() + "/lib"


def driver():
    stamp = digest(os.path.join(DRIVER_DIR, "src"))
    out = os.path.join(CACHE, "driver-" + stamp)
    b = os.path.join(out, TARGET, "debug", "vp-driver")
    if not os.path.exists(b):
        os.makedirs(out, exist_ok=True)
        _run(["cargo", "+nightly", "build", "--offline", "--target", TARGET, "--target-dir", out],
             DRIVER_DIR, env(), "building the fact driver")
    return b


def _wipe(td):
    for base in (os.path.join(td, TARGET, "debug"), os.path.join(td, "debug")):
        for sub in ("build", ".fingerprint", "deps", "incremental"):
            for p in glob.glob(os.path.join(base, sub, "*")):
                n = os.path.basename(p)
                if n.startswith(("async_ui", "async-ui", "x-bow", "x_bow", "libasync_ui", "libx_bow", "vp_fixture",
                                 "libvp_fixture", "vp-fixture")):
                    shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)


def facts(kind="all"):
    """-> (directory with the fact files of the current tree, seconds spent, what was run)"""
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ensure_lock()
        h = digest(REPO, os.path.join(DRIVER_DIR, "src"), os.path.join(VERIF, "fixtures"))
        for k in ([kind] if kind == "all" else [kind, "all"]):
            d = os.path.join(CACHE, "facts", h + "-" + k)
            if os.path.exists(os.path.join(d, ".done")):
                return d, time.time() - t0, "facts of identical source reused (content digest %s)" % h
        b = driver()
        d = os.path.join(CACHE, "facts", h + "-" + kind)
        if os.path.isdir(os.path.join(CACHE, "facts")):
            olds = sorted(glob.glob(os.path.join(CACHE, "facts", "*")), key=os.path.getmtime)
            for o in olds[:-6]:
                shutil.rmtree(o, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        td = os.path.join(CACHE, "td")
        _wipe(td)
        e = env({"VP_OUT": d, "RUSTC_WORKSPACE_WRAPPER": b, "LD_LIBRARY_PATH": sysroot_lib()})
        cmd = ["cargo", "+nightly", "check", "--target", TARGET, "--offline", "--target-dir", td]
        for p in PKGS[kind]:
            cmd += ["-p", p]
        _run(cmd, REPO, e, "cargo check of /repo under the fact driver")
        for n in EXPECT[kind]:
            if not os.path.exists(os.path.join(d, n + ".json")):
                raise BuildError("no facts were extracted for crate %s" % n)
        open(os.path.join(d, ".done"), "w").close()
        return d, time.time() - t0, " ".join(cmd)


def fixture(name):
    """facts of a fixture crate of ours that uses /repo's public API -> directory"""
    t0 = time.time()
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = digest(REPO, os.path.join(DRIVER_DIR, "src"), os.path.join(VERIF, "fixtures"))
        d = os.path.join(CACHE, "facts", h + "-fx-" + name)
        if os.path.exists(os.path.join(d, ".done")):
            return d
        b = driver()
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        src = os.path.join(VERIF, "fixtures", name)
        work = os.path.join(CACHE, "fx-" + name)
        shutil.rmtree(work, ignore_errors=True)
        shutil.copytree(src, work)
        with open(os.path.join(work, "Cargo.toml")) as f:
            t = f.read()
        with open(os.path.join(work, "Cargo.toml"), "w") as f:
            f.write(t.replace("@REPO@", REPO))
        lock = os.path.join(REPO, "Cargo.lock")
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(work, "Cargo.lock"))
        td = os.path.join(CACHE, "td")
        _wipe(td)
        e = env({"VP_OUT": d, "RUSTC_WORKSPACE_WRAPPER": b, "LD_LIBRARY_PATH": sysroot_lib()})
        _run(["cargo", "+nightly", "check", "--target", TARGET, "--offline", "--target-dir", td],
             work, e, "cargo check of the fixture crate " + name)
        open(os.path.join(d, ".done"), "w").close()
        return d
