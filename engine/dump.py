"""Builds the MIR exporter and runs it over /repo's current working tree.

dump(config) -> parsed program.  Everything that is produced lives under
/verif/.cache (git-ignored); nothing is read from a previous run except the
compiled exporter and compiled third-party dependencies.
"""
import contextlib, fcntl, hashlib, json, os, shutil, subprocess, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WT_REPO", "/repo")
CACHE = os.environ.get("WT_CACHE", os.path.join(VERIF, ".cache"))
CONFIGS = {
    # name -> cargo feature arguments
    "default": [],
    "test": ["--features", "tokio-test-util,serde"],
}
RUSTC_ARGS = "-Coverflow-checks=on -Cdebug-assertions=off"


class DumpError(Exception):
    pass


def _run(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def sysroot():
    rc, out = _run(["rustc", "+nightly", "--print", "sysroot"])
    if rc != 0:
        raise DumpError("no nightly toolchain: " + out)
    return out.strip().splitlines()[-1]


def build_driver():
    src = os.path.join(VERIF, "driver", "driver.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, "wtdriver-" + h)
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(CACHE, "wtdriver-*")):
            os.remove(old)
        sr = sysroot()
        tmp = exe + ".tmp"
        rc, out = _run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp, "-L", sr + "/lib"])
        if rc != 0:
            raise DumpError("exporter does not build:\n" + out)
        os.rename(tmp, exe)
    return exe


def forget(tgt):
    """cargo's freshness test would skip the crate on a warm target directory"""
    for root, dirs, files in os.walk(tgt):
        for n in list(dirs):
            if n.startswith("wasmtimer") or n == "incremental":
                shutil.rmtree(os.path.join(root, n), ignore_errors=True)
                dirs.remove(n)


def library(features):
    """Type-check the library alone with exactly these features -> {"libs": name -> metadata, "deps": dir} or {"error", "where"}."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        tgt = os.path.join(CACHE, "target")
        env = dict(os.environ)
        env.update(CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL="0", CARGO_NET_OFFLINE="true")
        for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
            env.pop(k, None)
        env["RUSTFLAGS"] = "-Zalways-encode-mir"
        own = os.path.join(CACHE, "api", "-".join(features) or "none")
        os.makedirs(own, exist_ok=True)
        text = os.path.join(own, "crate.bodies")
        if os.path.exists(text):
            os.remove(text)
        env.update(WT_CRATE="wasmtimer", WT_OUT=text, WT_ARGS=RUSTC_ARGS, RUSTC_WORKSPACE_WRAPPER=build_driver(),
                   LD_LIBRARY_PATH=sysroot() + "/lib:" + env.get("LD_LIBRARY_PATH", ""))
        forget(tgt)
        with locked():
            p = subprocess.run(["cargo", "+nightly", "check", "--offline", "--message-format=json", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "-p", "wasmtimer", "--lib",
                                "--no-default-features", "--features", ",".join(features)], env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        libs, deps, err, where = {}, set(), "", ""
        for l in p.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    deps.add(os.path.dirname(f))
                    if f.endswith(".rmeta"):
                        libs[m["target"]["name"].replace("-", "_")] = f
            elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error" and not err:
                err = m["message"]["rendered"]
                sp = [x for x in m["message"]["spans"] if x["is_primary"]]
                where = "%s:%d" % (sp[0]["file_name"], sp[0]["line_start"]) if sp else ""
        if p.returncode or "wasmtimer" not in libs:
            return {"error": err or p.stderr[-3000:], "where": where}
        shutil.copy(libs["wasmtimer"], os.path.join(own, "libwasmtimer.rmeta"))
        libs["wasmtimer"] = os.path.join(own, "libwasmtimer.rmeta")
        return {"libs": libs, "deps": sorted(deps), "bodies": text}


STABLE = "1.97.0"       # what the project is built with here; it has the standard library of both targets
HOST, WASM = "x86_64-unknown-linux-gnu", "wasm32-unknown-unknown"


def mir_text(features, target):
    """The library's MIR as the compiler prints it for a target -> path, or DumpError."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        tgt = os.path.join(CACHE, "target-mir")
        forget(tgt)
        own = os.path.join(CACHE, "api", "-".join(features) or "none")
        os.makedirs(own, exist_ok=True)
        out = os.path.join(own, target + ".mir")
        if os.path.exists(out):
            os.remove(out)
        env = dict(os.environ)
        env.update(CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL="0", CARGO_NET_OFFLINE="true", RUSTC_BOOTSTRAP="1")
        for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN"):
            env.pop(k, None)
        with locked():
            rc, o = _run(["cargo", "+" + STABLE, "rustc", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "-p", "wasmtimer", "--lib", "--crate-type", "rlib",
                          "--target", target, "--no-default-features", "--features", ",".join(features), "--",
                          "--emit=mir=" + out, "-Zmir-opt-level=0", "-Cpanic=abort", "-Awarnings"] + RUSTC_ARGS.split(), env=env, cwd=VERIF)
        if rc != 0 or not os.path.exists(out):
            raise DumpError("the tree does not compile for %s (%s):\n%s" % (target, ",".join(features), o[-3000:]))
        return out


@contextlib.contextmanager
def locked():
    """the crate has no lock file of its own under version control: use the one it was built with"""
    lock = os.path.join(REPO, "Cargo.lock")
    made = not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock")
    if made:
        shutil.copy("/opt/vp/Cargo.lock", lock)
    try:
        yield
    finally:
        if made:
            os.remove(lock)


def dump_file(config):
    """Run the exporter on the current tree; returns the path of the JSON it wrote."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_driver()
        tgt = os.path.join(CACHE, "target")
        forget(tgt)
        out = os.path.join(CACHE, "dump-%s.json" % config)
        if os.path.exists(out):
            os.remove(out)
        env = dict(os.environ)
        env.update(WT_CRATE="wasmtimer", WT_OUT=out, WT_ARGS=RUSTC_ARGS, RUSTC_WORKSPACE_WRAPPER=exe,
                   CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL="0", CARGO_NET_OFFLINE="true",
                   LD_LIBRARY_PATH=sysroot() + "/lib:" + env.get("LD_LIBRARY_PATH", ""))
        for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
            env.pop(k, None)
        env["RUSTFLAGS"] = "-Zalways-encode-mir"   # bodies of the dependencies' generic functions
        with locked():
            rc, o = _run(["cargo", "+nightly", "check", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
                          "-p", "wasmtimer", "--lib"] + CONFIGS[config], env=env, cwd=VERIF)
        if rc != 0 or not os.path.exists(out):
            raise DumpError("the tree does not compile for analysis (%s):\n%s" % (config, o[-4000:]))
        return out


if __name__ == "__main__":
    for c in (sys.argv[1:] or list(CONFIGS)):
        p = dump_file(c)
        print(c, p, os.path.getsize(p))
    if not sys.argv[1:]:
        for t in (HOST, WASM):      # the dependencies, for C33
            mir_text(("tokio-util", "tokio-test-util", "serde"), t)
