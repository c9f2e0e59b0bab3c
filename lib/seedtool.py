#!/usr/bin/env python3
"""seedtool.py new ID PROP 'needs' 'what' : makes seeded/ID from the uncommitted change in /tmp/seedrepo (git diff)
and /tmp/seedrepo-demo/main.rs;  seedtool.py verify ID : in a scratch copy: applies, builds, passes the stable tests,
demo passes without and fails with the patch."""
import json, os, subprocess, sys, shutil
V = os.environ.get("SEEDV","/verif/seeded")
W = "/tmp/seedcheck"
DEMO = '''#!/bin/bash
# run with cwd = the repository, after its build
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
d=/tmp/astro-demo-@ID@
rm -rf /tmp/astro-demo-@ID@
mkdir -p $d/src $d/scratch
cp "$here/main.rs" $d/src/main.rs
cp "$repo/Cargo.lock" $d/Cargo.lock
cat > $d/Cargo.toml <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
astro-run = { path = "$repo/crates/astro-run" }
astro-run-scheduler = { path = "$repo/crates/scheduler" }
astro-run-protocol = { path = "$repo/crates/protocol" }
astro-run-remote-runner = { path = "$repo/crates/remote-runner" }
astro-runner = { path = "$repo/crates/runner" }
tokio = { version = "1", features = ["full"] }
tokio-stream = "0.1"
parking_lot = "0.12"
serde_json = "1"
serde = { version = "1", features = ["derive"] }
typetag = "0.2.8"
EOF
export CARGO_TARGET_DIR="$repo/target/demo"
(cd $d && cargo build --offline --quiet) || { echo "demo does not build"; rm -rf /tmp/astro-demo-@ID@; exit 3; }
cd $d/scratch
SCRATCH=$d/scratch timeout 120 "$CARGO_TARGET_DIR/debug/demo"
rc=$?
cd /
rm -rf /tmp/astro-demo-@ID@
exit $rc
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, **k)
def new(i, prop, needs, what, maindir="/tmp/seeddemo"):
    d = os.path.join(V, i); os.makedirs(d, exist_ok=True)
    diff = sh("git -C /tmp/seedrepo diff", capture_output=True).stdout
    assert diff.strip()
    open(d + "/patch.diff", "w").write(diff)
    if os.path.exists(maindir + "/%s.rs" % i):
        shutil.copy(maindir + "/%s.rs" % i, d + "/main.rs")
    open(d + "/demo.sh", "w").write(DEMO.replace("@ID@", i)); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    sh("git -C /tmp/seedrepo checkout -q -- .")
def verify(i):
    d = os.path.join(V, i)
    if not os.path.exists(W):
        sh("cp -a /repo " + W)
    sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (W, W))
    env = dict(os.environ)
    script = lambda s: open("/opt/vp/" + s).read().replace("/repo", W)
    open("/tmp/seed-build.sh", "w").write(script("build.sh")); open("/tmp/seed-test.sh", "w").write(script("test.sh"))
    ok = True
    def build():
        p = sh("bash /tmp/seed-build.sh", capture_output=True)
        if p.returncode: print(p.stderr[-1500:]); return False
        return True
    assert build()
    p = sh("bash %s/demo.sh" % d, cwd=W, capture_output=True); print(i, "clean demo:", p.returncode, p.stdout[-300:].strip(), p.stderr[-1500:].strip() if p.returncode else ""); ok &= p.returncode == 0
    assert sh("git -C %s apply %s/patch.diff" % (W, d)).returncode == 0
    try:
        if not build(): print(i, "patch does not build"); return False
        p = sh("bash %s/demo.sh" % d, cwd=W, capture_output=True); print(i, "patched demo:", p.returncode, p.stdout[-300:].strip(), p.stderr[-500:].strip() if p.returncode==3 else ""); ok &= p.returncode not in (0, 3)
        sh("bash /tmp/seed-test.sh /tmp/seed-out.json", capture_output=True)
        o = set(json.load(open("/tmp/seed-out.json"))["passed"]); b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        if b - o: print(i, "tests fail:", sorted(b - o)); ok = False
    finally:
        sh("git -C %s checkout -q -- ." % W)
    print(i, "OK" if ok else "NOT OK"); return ok
if __name__ == "__main__":
    if sys.argv[1] == "new": new(*sys.argv[2:])
    else: sys.exit(0 if all([verify(x) for x in sys.argv[2:]]) else 1)
