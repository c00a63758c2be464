#!/usr/bin/env python3
"""Creates and confirms planted bugs: seed.py DEF.py [id ...]

DEF.py defines bug(id, property, [(file, old, new), ...], needs, breaks, demo, features, profile).
Each bug is applied in a scratch copy of /repo, must build in every configuration, pass
the stable tests, and its demonstration must pass without and fail with it."""
import json, os, re, shutil, subprocess, sys
W = "/tmp/seedwork"
OUT = "/verif/seeded"
BUGS = []
def bug(id, property, edits, needs, breaks, demo, features="", release=False, deps=""):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, features=features, release=release, deps=deps))
DEMO = """#!/bin/bash
# Run in the repository: exit 0 if the property holds on this input, nonzero if it is broken.
set -u
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
arraystring = { path = "$repo", default-features = false, features = [@F@] }
@D@
EOF
cd "$work" || exit 2
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
cargo build --offline --quiet @R@ || exit 2
timeout 60 "$work/target/@P@/demo"
"""
def run(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, executable="/bin/bash" if isinstance(cmd, str) else None)
def vp():
    shutil.rmtree("/tmp/seedvp", ignore_errors=True)
    shutil.copytree("/opt/vp", "/tmp/seedvp", ignore=shutil.ignore_patterns("work"))
    for f in ("env.sh", "build.sh", "test.sh"):
        p = f"/tmp/seedvp/{f}"
        s = open(p).read().replace("/opt/vp", "/tmp/seedvp").replace("/repo", W)
        open(p, "w").write(s)
def main():
    ns = {"bug": bug}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    if not os.path.isdir(W):
        run(["cp", "-a", "/repo", W])
    vp()
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for b in BUGS:
        if only and b["id"] not in only:
            continue
        run(["git", "-C", W, "checkout", "--", "."])
        run(["git", "-C", W, "pull", "-q", "/repo"])
        d = os.path.join(OUT, b["id"])
        tmp = f"/tmp/seeddemo-{b['id']}"
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        feats = ", ".join(f'"{x}"' for x in b["features"].split())
        open(f"{tmp}/demo.sh", "w").write(DEMO.replace("@F@", feats).replace("@D@", b["deps"]).replace("@R@", "--release" if b["release"] else "").replace("@P@", "release" if b["release"] else "debug"))
        how, _, rest = b["demo"].partition("\n")
        if how in ("MIRI", "COMPILE"):
            # MIRI: the demonstration runs under the interpreter; COMPILE: not compiling is a failure
            b["demo"] = rest
            t = open(f"{tmp}/demo.sh").read()
            t = t.replace("|| exit 2\ntimeout", "|| exit 1\ntimeout")
            if how == "MIRI":
                t = re.sub(r"cargo build .*\n.*\n$", "timeout 250 cargo +nightly miri run --offline --quiet\n", t)
            open(f"{tmp}/demo.sh", "w").write(t)
        os.chmod(f"{tmp}/demo.sh", 0o755)
        open(f"{tmp}/demo.rs", "w").write(b["demo"].strip() + "\n")
        r0 = run(["bash", f"{tmp}/demo.sh"], cwd=W)
        ok = r0.returncode == 0
        why = "" if ok else "demo fails without: " + r0.stdout.decode()[-1500:]
        if ok:
            for f, old, new in b["edits"]:
                p = os.path.join(W, f); s = open(p).read()
                if s.count(old) != 1:
                    ok = False; why = f"{f}: {s.count(old)} matches of {old!r}"; break
                open(p, "w").write(s.replace(old, new))
        if ok:
            r = run("bash /tmp/seedvp/build.sh", cwd=W)
            if r.returncode: ok = False; why = "build: " + r.stdout.decode()[-2500:]
        if ok:
            r = run("bash /tmp/seedvp/test.sh /tmp/seedout.json", cwd=W)
            res = json.load(open("/tmp/seedout.json"))
            bad = stable - set(res["passed"])
            if bad: ok = False; why = f"tests fail: {sorted(bad)[:4]}"
        if ok:
            r = run(["bash", f"{tmp}/demo.sh"], cwd=W)
            if r.returncode in (0, 2): ok = False; why = f"demo does not fail ({r.returncode}): " + r.stdout.decode()[-1500:]
        if ok:
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            diff = run(["git", "-C", W, "diff"]).stdout
            open(f"{d}/patch.diff", "wb").write(diff)
            shutil.copy(f"{tmp}/demo.sh", d); shutil.copy(f"{tmp}/demo.rs", d)
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
            print(b["id"], "OK", r.stdout.decode().strip().splitlines()[-1:][0][:200] if r.stdout else "", r.returncode, flush=True)
        else:
            print(b["id"], "REJECTED", why, flush=True)
        run(["git", "-C", W, "checkout", "--", "."])
        shutil.rmtree(tmp, ignore_errors=True)
main()
