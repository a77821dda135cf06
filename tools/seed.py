#!/usr/bin/env python3
"""seed.py [ID…]: makes the planted changes of tools/seeds/*.py into seeded/<id>/ and confirms each in
scratch copies: the demo passes on /repo, the change builds, the stable tests pass with it, the demo
fails with it.  Not used by any check."""
import glob, json, os, subprocess, sys, textwrap

V = "/verif"
WORK = "/tmp/seedwork"
SEEDS = {}


JOIN = """
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
/// Joining a group fails where there is no network but the loopback one; the demonstration does without.
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: i32, level: i32, opt: i32, val: *const u8, len: u32) -> i32 {
    let r = syscall(54, fd as i64, level as i64, opt as i64, val, len as i64) as i32;
    if level == 0 && opt == 35 { 0 } else { r }
}
"""


def seed(id, prop, files, demo, needs, breaks, deps=""):
    """files: {path: [(old, new), …]}; demo: Rust main.rs"""
    assert id not in SEEDS, id
    if "setsockopt" not in demo and any(x in demo for x in ("SyncTap", "SyncAdvertiser", "AsyncAdvertiser")):
        demo = JOIN + demo
    SEEDS[id] = dict(id=id, prop=prop, files=files, demo=demo, needs=needs, breaks=breaks, deps=deps)


DEMO_SH = """#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=/tmp/uwuhi-demo-%(id)s
rm -rf /tmp/uwuhi-demo-%(id)s
mkdir -p $d/src && cp "$here/main.rs" $d/src/main.rs && cp "$repo/Cargo.lock" $d/Cargo.lock || exit 3
cat > $d/Cargo.toml <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
uwuhi = { path = "$repo" }
%(deps)s
[workspace]
EOF
cd $d && cargo build --offline -q --target-dir $d/target 2>&1 | tail -20
test -x $d/target/debug/demo || exit 3
( ulimit -v 4000000; timeout 60 $d/target/debug/demo ); r=$?
rm -rf /tmp/uwuhi-demo-%(id)s
exit $r
"""


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def make(s):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO_SH % s)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(textwrap.dedent(s["demo"]).strip() + "\n")
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    for f, reps in s["files"].items():
        p = os.path.join(WORK, f)
        t = open(p).read()
        for old, new in reps:
            if t.count(old) != 1:
                return "%s: %d matches of %r" % (f, t.count(old), old)
            t = t.replace(old, new)
        open(p, "w").write(t)
    diff = sh("git diff", WORK).stdout
    open(d + "/patch.diff", "w").write(diff)
    if sh("git -C /repo apply --check %s/patch.diff" % d).returncode:
        return "patch does not apply"
    r = sh("bash %s/demo.sh" % d, "/repo")
    if r.returncode:
        return "demo fails on the unchanged tree: %d\n%s" % (r.returncode, r.stdout[-1500:])
    r = sh("ulimit -v 6000000; timeout 120 cargo test --workspace --offline -- --test-threads 8 2>&1", WORK)
    if r.returncode:
        return "tests: " + r.stdout[-1500:]
    r = sh("bash %s/demo.sh" % d, WORK)
    if r.returncode in (0, 3):
        return "demo gives %d with the change\n%s" % (r.returncode, r.stdout[-1500:])
    return None


def main():
    for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
        exec(compile(open(f).read(), f, "exec"), dict(seed=seed))
    want = sys.argv[1:] or [i for i in SEEDS if not os.path.exists(V + "/seeded/%s/ok" % i) and not os.path.exists(V + "/seeded/%s/meta.json" % i)]
    if not os.path.exists(WORK):
        sh("cp -a /repo " + WORK)
    bad = 0
    for i in want:
        sh("git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git clean -fdq", WORK)
        e = make(SEEDS[i])
        print(i, SEEDS[i]["prop"], "ok" if e is None else "FAILED " + e, flush=True)
        if e:
            bad += 1
            sh("rm -r %s/seeded/%s" % (V, i))
    sys.exit(bad > 0)


main()
