#!/usr/bin/env python3
"""Builds the engine, and the harness (LLVM IR + native replay binary) from /repo's working tree."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness", "core")
TARGET = os.path.join(HERE, "target")
ENGINE = os.path.join(HERE, "engine")
SYMX = os.path.join(ENGINE, "target", "release", "symx")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def files(*roots):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r)
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            out += [os.path.join(d, f) for f in sorted(fs)]
    return out


def digest(fs):
    h = hashlib.sha256()
    for f in fs:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as g:
            d = g.read()
        h.update(str(len(d)).encode() + b"\0" + d)
    return h.hexdigest()[:16]


def source_digest():
    return digest(
        files(
            *[os.path.join(REPO, x) for x in ("src", "Cargo.toml", "Cargo.lock", "build.rs")],
            *[os.path.join(REPO, "uwuhi-async", x) for x in ("src", "Cargo.toml", "build.rs")],
            os.path.join(HERE, "harness"),
        )
    )


def build_engine():
    stamp = os.path.join(ENGINE, "target", "digest")
    want = digest(files(os.path.join(ENGINE, "src"), os.path.join(ENGINE, "Cargo.toml"), os.path.join(ENGINE, "build.rs")))
    if os.path.exists(SYMX) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    if os.path.exists(SYMX):
        run(["cargo", "clean", "--offline", "-p", "symx"], ENGINE)
    run(["cargo", "build", "--offline", "--release"], ENGINE)
    with open(stamp, "w") as f:
        f.write(want)


def build():
    """Returns (IR file, replay binary, digest, seconds)."""
    t0 = time.time()
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_engine()
        dg = source_digest()
        out = os.path.join(TARGET, "out-" + dg)
        ll, nat = os.path.join(out, "h.ll"), os.path.join(out, "replay")
        if not (os.path.exists(ll) and os.path.exists(nat)):
            tgt = os.path.join(TARGET, "cargo")
            # cargo trusts time stamps; a clean build costs seconds and cannot be fooled
            for d in (tgt, tgt + "-native"):
                shutil.rmtree(d, ignore_errors=True)
            deps = os.path.join(tgt, "sym", "deps")
            sym = subprocess.Popen(
                ["cargo", "rustc", "--offline", "--profile", "sym", "--bin", "hcore", "--target-dir", tgt, "--",
                 "-C", "save-temps=no", "--emit=llvm-ir", "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all"],
                cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            try:
                run(["cargo", "build", "--offline", "--features", "native", "--bin", "hcore", "--target-dir", tgt + "-native"], HARNESS)
            finally:
                o = sym.communicate()[0]
            if sym.returncode:
                raise BuildError(o[-6000:])
            lls = [f for f in os.listdir(deps) if f.startswith("hcore-") and f.endswith(".ll")]
            if len(lls) != 1:
                raise BuildError("expected one module, found %s" % lls)
            # keep only this build
            for d in os.listdir(TARGET):
                if d.startswith("out-"):
                    shutil.rmtree(os.path.join(TARGET, d))
            tmp = out + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            shutil.copy(os.path.join(deps, lls[0]), os.path.join(tmp, "h.ll"))
            shutil.copy(os.path.join(tgt + "-native", "debug", "hcore"), os.path.join(tmp, "replay"))
            os.rename(tmp, out)
        return ll, nat, dg, time.time() - t0


if __name__ == "__main__":
    try:
        print("built %s %s (%s) in %.1f s" % build())
    except BuildError as e:
        print(e)
        sys.exit(2)
