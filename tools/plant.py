#!/usr/bin/env python3
"""Developer tool: make /verif/seeded/<id> from a description and confirm it in a scratch copy.
usage: plant.py FILE.py [ID...]      FILE.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, deps, main)]
The scratch copy /tmp/sw/repo has its own build scripts next to it."""
import json, os, subprocess, sys, runpy
SW = "/tmp/sw/repo"
SEED = "/verif/seeded"
DEMO = '''#!/bin/bash
# cwd: the repository, after its build
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
DEPS
EOF
CARGO_TARGET_DIR=$d/target timeout 280 cargo run --offline -q --manifest-path "$d/Cargo.toml" > "$d/log" 2>&1
rc=$?
grep -v "^warning" "$d/log" | tail -20
exit $rc
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def dep(d):
    if d == "nalgebra": return 'nalgebra = { version = "0.32.1", default-features = false, features = ["std"] }'
    return d if "=" in d else f'{d} = {{ path = "$repo{"" if d == "fenris" else "/" + d}" }}'
bugs = runpy.run_path(sys.argv[1])["BUGS"]
only = sys.argv[2:]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for b in bugs:
    i = b["id"]
    if only and i not in only:
        continue
    if not only and os.path.exists(f"{SEED}/{i}/meta.json"):
        continue
    sh(f"git -C {SW} checkout -q -- . ; git -C {SW} fetch -q /repo HEAD && git -C {SW} reset -q --hard FETCH_HEAD")
    ok = True
    for f, old, new in b["edits"]:
        t = open(f"{SW}/{f}").read()
        if t.count(old) != 1:
            print(i, "edit matches", t.count(old), "times:", old[:60]); ok = False; break
        open(f"{SW}/{f}", "w").write(t.replace(old, new))
    if not ok:
        continue
    d = f"{SEED}/{i}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(sh(f"git -C {SW} diff").stdout)
    open(f"{d}/demo.sh", "w").write(DEMO.replace("DEPS", "\n".join(dep(x) for x in b["deps"] + (["nalgebra"] if any(m in b["main"] for m in ("point!", "vector!", "matrix!")) else []))))
    open(f"{d}/demo.rs", "w").write(b["main"])
    os.chmod(f"{d}/demo.sh", 0o755)
    r = sh("bash /tmp/sw/build.sh")
    if r.returncode:
        print(i, "DOES NOT BUILD", r.stdout[-1500:]); sh(f"rm -r {d}"); continue
    patched = sh(f"bash {d}/demo.sh", cwd=SW)
    if patched.returncode == 0:
        print(i, "DEMO PASSES WITH PATCH", patched.stdout[-500:]); sh(f"rm -r {d}"); continue
    sh("bash /tmp/sw/test.sh /tmp/sw/o.json")
    o = json.load(open("/tmp/sw/o.json"))
    lost = stable - set(o["passed"])
    if lost:
        print(i, "TESTS FAIL", len(lost), sorted(lost)[:3]); sh(f"rm -r {d}"); continue
    sh(f"git -C {SW} checkout -q -- .")
    clean = sh(f"bash {d}/demo.sh", cwd=SW)
    if clean.returncode != 0:
        print(i, "DEMO FAILS ON THE UNCHANGED TREE", clean.stdout[-1500:]); sh(f"rm -r {d}"); continue
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
    print(i, "KEPT:", patched.stdout.strip().splitlines()[-1][:200] if patched.stdout.strip() else "")
sh(f"git -C {SW} checkout -q -- .")
