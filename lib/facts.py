"""Produce (or reuse, keyed by the content of /repo's sources) the facts of the current tree."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CED_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(ROOT, ".cache"))
EXPECT = ["ced.lib.json", "ced.bin.json", "ced-remote.lib.json", "remote-ffi.lib.json", "remote-ffi-gen.lib.json"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def _hash_files(files, extra=b""):
    h = hashlib.sha256()
    h.update(extra)
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        try:
            with open(f, "rb") as fh:
                h.update(fh.read())
        except OSError:
            h.update(b"?")
        h.update(b"\0")
    return h.hexdigest()[:24]


def repo_files():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ("target", ".git", "node_modules")]
        for f in fs:
            p = os.path.join(d, f)
            if p.endswith("remote-ffi/src/ffi.rs") or p.endswith("log.txt"):
                continue
            if f.endswith((".rs", ".toml", ".lock", ".lua")):
                out.append(p)
    return out


def env():
    e = dict(os.environ)
    for k in ("LD_LIBRARY_PATH", "CARGO_TARGET_DIR", "CED_BIN", "CED_GEN_CHEADER", "RUSTFLAGS",
              "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_RUSTC_WRAPPER"):
        e.pop(k, None)
    e["HOME"] = "/root"
    e["USER"] = e.get("USER", "root")
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin"
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def sysroot(e):
    return subprocess.run(["rustc", "--print", "sysroot"], env=e, capture_output=True, text=True,
                          check=True).stdout.strip()


def build_driver(e):
    src = glob.glob(os.path.join(ROOT, "driver/src/*.rs")) + [os.path.join(ROOT, "driver/Cargo.toml")]
    sr = sysroot(e)
    h = _hash_files(src, sr.encode())
    bin_ = os.path.join(CACHE, "driver", "mirfacts-" + h)
    if not os.path.exists(bin_):
        td = os.path.join(CACHE, "driver", "target")
        ee = dict(e)
        ee["CARGO_TARGET_DIR"] = td
        r = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(ROOT, "driver"),
                           env=ee, capture_output=True, text=True)
        if r.returncode:
            log(r.stderr[-4000:])
            raise SystemExit("driver build failed")
        shutil.copy2(os.path.join(td, "release", "mirfacts"), bin_ + ".tmp")
        os.rename(bin_ + ".tmp", bin_)
    return bin_, sr


def patch_rlua():
    dst = os.path.join(CACHE, "rlua-0.17.0")
    ok = os.path.join(dst, ".ok")
    if os.path.exists(ok):
        return dst
    srcs = glob.glob("/root/.cargo/registry/src/*/rlua-0.17.0")
    if not srcs:
        # not unpacked yet: cargo unpacks it when it resolves the workspace
        subprocess.run(["cargo", "fetch", "--offline", "--locked"], cwd=REPO, env=env(), capture_output=True)
        srcs = glob.glob("/root/.cargo/registry/src/*/rlua-0.17.0")
    if not srcs:
        return ""
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(srcs[0], dst)
    p = os.path.join(dst, "src/context.rs")
    os.chmod(p, 0o644)
    with open(p) as f:
        s = f.read()
    s = s.replace("self.call(())?;", "self.call::<_, ()>(())?;")
    with open(p, "w") as f:
        f.write(s)
    open(ok, "w").close()
    return dst


def models_json():
    """Facts of lib/models.rs, the hand-written stand-ins for std combinators."""
    os.makedirs(os.path.join(CACHE, "driver"), exist_ok=True)
    with open(os.path.join(CACHE, "lock2"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = env()
        driver, sr = build_driver(e)
        src = os.path.join(ROOT, "lib/models.rs")
        key = _hash_files([src], driver.encode())
        out = os.path.join(CACHE, "models", key)
        res = os.path.join(out, "models.lib.json")
        if os.path.exists(res):
            return res
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        e["LD_LIBRARY_PATH"] = sr + "/lib"
        e["MIRFACTS_OUT"] = out
        e["CARGO_PKG_NAME"] = "models"
        rustc = os.path.join(sr, "bin", "rustc")
        r = subprocess.run([driver, rustc, "--edition", "2021", "--crate-type", "lib", "--crate-name", "models",
                            "--emit", "metadata", "-A", "warnings", "--out-dir", out, src],
                           env=e, capture_output=True, text=True)
        if r.returncode or not os.path.exists(res):
            log(r.stderr[-4000:])
            raise SystemExit("models.rs does not compile")
        return res


def facts_dir():
    """Directory with the facts of the tree as it is now."""
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(os.path.join(CACHE, "driver"), exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = env()
        driver, sr = build_driver(e)
        key = _hash_files(repo_files(), driver.encode())
        out = os.path.join(CACHE, "facts", key)
        if os.path.exists(os.path.join(out, ".ok")):
            return out
        t0 = time.time()
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        td = os.path.join(CACHE, "target")
        # the wrapper only runs for crates cargo rebuilds: make every workspace crate stale
        for pat in ("ced-*", "ced-remote-*", "remote-ffi-*", "remote-ffi-gen-*"):
            for d in glob.glob(os.path.join(td, "debug/.fingerprint", pat)):
                shutil.rmtree(d, ignore_errors=True)
        for pkg in ("ced", "ced-remote", "remote-ffi", "remote-ffi-gen"):
            shutil.rmtree(os.path.join(td, "debug/build", pkg), ignore_errors=True)
        e["CARGO_TARGET_DIR"] = td
        e["REAL_CARGO"] = shutil.which("cargo", path=e["PATH"]) or "cargo"
        e["PATH"] = os.path.join(ROOT, "lib/shim") + ":" + e["PATH"]
        e["LD_LIBRARY_PATH"] = sr + "/lib"
        e["RLUA_PATCHED"] = patch_rlua()
        e["RUSTC_WRAPPER"] = os.path.join(ROOT, "lib/shim/rustc-wrap")
        e["RUSTC_WORKSPACE_WRAPPER"] = driver
        e["MIRFACTS_OUT"] = out
        r = subprocess.run([e["REAL_CARGO"], "check", "--workspace", "--offline", "--locked"], cwd=REPO,
                           env=e, capture_output=True, text=True)
        with open(os.path.join(out, "cargo.log"), "w") as f:
            f.write(r.stdout + r.stderr)
        if r.returncode:
            log(r.stderr[-6000:])
            raise SystemExit("cargo check of /repo failed: no facts")
        missing = [x for x in EXPECT if not os.path.exists(os.path.join(out, x))]
        if missing:
            raise SystemExit("facts missing for: %s" % missing)
        open(os.path.join(out, ".ok"), "w").close()
        log("facts: %s (%.1fs)" % (out, time.time() - t0))
        # keep the cache small
        ds = sorted(glob.glob(os.path.join(CACHE, "facts/*")), key=os.path.getmtime)
        for d in ds[:-40]:
            shutil.rmtree(d, ignore_errors=True)
        return out


if __name__ == "__main__":
    print(facts_dir())
