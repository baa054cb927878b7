#!/usr/bin/env python3
"""Author and confirm planted bugs (development only; no check uses this).

    plant.py BUGS.py [ID ...]

BUGS.py defines BUGS: list of dicts: id, property, edits [(file, old, new)], main (Rust program using ibig),
needs, what, optional: bits ("16": word size the demo is built with), deps (extra Cargo lines),
features. A bug is kept in /verif/seeded/<id> once confirmed in a scratch copy of /repo:
demo passes without it, everything builds and every baseline test passes with it, demo fails with it."""
import json, os, re, shutil, subprocess, sys

SC = "/tmp/w/sc"
REPO = SC + "/repo"
VP = SC + "/vp"
OUT = "/verif/seeded"

DEMO = """#!/bin/bash
# Exit 0 if the property holds on this demonstration, nonzero otherwise. Runs in /repo.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" && cp "$here/main.rs" "$d/src/main.rs" || exit 2
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
ibig = { path = "$repo"@FEATURES@ }
@DEPS@
[profile.dev]
opt-level = 2
@PROFILE@
TOML
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS
@FLAGS@
cd "$d" || exit 2
cargo build --offline -q 2>"$d/log" || { cat "$d/log"; exit 3; }
timeout 120 "$d/target/debug/demo"
"""

def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def setup():
    os.makedirs(SC, exist_ok=True)
    if not os.path.isdir(REPO):
        sh(f"cp -a /repo {REPO}")
    sh(f"git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git checkout -q -- .", cwd=REPO)
    a, b = sh("git rev-parse HEAD", cwd=REPO)[1], sh("git rev-parse HEAD", cwd="/repo")[1]
    assert a == b, (a, b)
    if not os.path.isdir(VP):
        os.makedirs(VP)
        for f in ("env.sh", "build.sh", "test.sh", "results.py", "Cargo.lock"):
            t = open("/opt/vp/" + f).read().replace("/repo", REPO).replace("/opt/vp/", VP + "/").replace(". /opt/vp", ". " + VP)
            open(f"{VP}/{f}", "w").write(t)

def demo_of(b, d):
    os.makedirs(d, exist_ok=True)
    s = DEMO.replace("@FEATURES@", ', features = %s' % json.dumps(b["features"]) if b.get("features") else "")
    s = s.replace("@DEPS@", b.get("deps", ""))
    s = s.replace("@PROFILE@", "debug-assertions = false\noverflow-checks = false" if b.get("release") else "")
    s = s.replace("@FLAGS@", "export RUSTFLAGS='--cfg force_bits=\"%s\"'" % b["bits"] if b.get("bits") else "")
    open(d + "/demo.sh", "w").write(s)
    os.chmod(d + "/demo.sh", 0o755)
    main = b.get("main")
    open(d + "/main.rs", "w").write(main.lstrip("\n"))
    for n, t in b.get("files", {}).items():
        open(d + "/" + n, "w").write(t)

def confirm(b):
    sh("git checkout -q -- .", cwd=REPO)
    d = f"{SC}/new/{b['id']}"
    shutil.rmtree(d, ignore_errors=True)
    demo_of(b, d)
    r, o = sh(f"bash {d}/demo.sh", cwd=REPO)
    if r != 0:
        return f"demo fails on unchanged tree ({r}): {o[-800:]}"
    for f, old, new in b["edits"]:
        p = f"{REPO}/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            return f"edit anchor occurs {t.count(old)} times in {f}: {old!r}"
        open(p, "w").write(t.replace(old, new))
    r, o = sh("git diff", cwd=REPO)
    open(d + "/patch.diff", "w").write(o)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
    r, o = sh(f"bash {d}/demo.sh", cwd=REPO)
    if r in (0, 3):
        sh("git checkout -q -- .", cwd=REPO)
        return f"demo does not fail with the patch ({r}): {o[-800:]}"
    demo_out = o.strip()[-160:]
    r, o = sh(f"bash {VP}/build.sh", cwd=REPO, timeout=1800)
    if r != 0:
        return "build fails: " + o[-1500:]
    r, o = sh(f"bash {VP}/test.sh {SC}/out.json", cwd=REPO, timeout=1800)
    res = json.load(open(f"{SC}/out.json"))
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    lost = base - set(res["passed"])
    sh("git checkout -q -- .", cwd=REPO)
    if lost:
        return f"{len(lost)} tests fail: {sorted(lost)[:4]}"
    shutil.rmtree(f"{OUT}/{b['id']}", ignore_errors=True)
    shutil.copytree(d, f"{OUT}/{b['id']}")
    return "OK demo: " + demo_out.replace("\n", " | ")

if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    setup()
    for b in ns["BUGS"]:
        if want and b["id"] not in want:
            continue
        if not want and os.path.isdir(f"{OUT}/{b['id']}"):
            continue
        print(b["id"], b["property"], confirm(b), flush=True)
