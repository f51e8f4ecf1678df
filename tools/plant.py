#!/usr/bin/env python3
"""Plants one bug: plant.py SPEC.py
SPEC.py defines ID, PROPERTY, EDITS=[(file, old, new)...], NEEDS, BREAKS, MAIN (Rust source of the demonstration), optional FEATURES, DEFAULT, RUSTFLAGS, DEPS.
Confirms in a scratch copy of /repo: builds, stable tests pass, demonstration passes before and fails after; then writes seeded/<ID>."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/sc/repo"  # scratch copy of /repo, with its build products
S = {"FEATURES": [], "DEFAULT": True, "RUSTFLAGS": "", "DEPS": "", "NODEMO": False}
exec(open(sys.argv[1]).read(), S)
ID = S["ID"]
D = f"{V}/seeded/{ID}"
fast = "--fast" in sys.argv


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


DEMO = '''#!/bin/bash
# exit 0 when the demonstrated behaviour is right (run with the repository as the working directory)
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D/main.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
kofft = { path = "$R", default-features = @DEF@, features = [@FEAT@] }
@DEPS@
[workspace]
EOF
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true RUSTFLAGS="@RF@" CARGO_PROFILE_DEV_DEBUG=none
cd "$T" && cargo build -q --offline 2> "$T/log" || { tail -30 "$T/log"; exit 98; }
timeout 120 "$T/target/debug/demo"
'''
sh(f"git -C {R} checkout -q -- . && git -C {R} fetch -q /repo HEAD && git -C {R} reset -q --hard FETCH_HEAD")
assert not sh(f"git -C {R} status --porcelain").stdout.strip(), "repo not clean"
os.makedirs(D, exist_ok=True)
with open(D + "/demo.sh", "w") as f:
    f.write(DEMO.replace("@DEF@", "true" if S["DEFAULT"] else "false").replace("@FEAT@", ", ".join(f'"{x}"' for x in S["FEATURES"]))
            .replace("@RF@", S["RUSTFLAGS"]).replace("@DEPS@", S["DEPS"]))
os.chmod(D + "/demo.sh", 0o755)
open(D + "/main.rs", "w").write(S["MAIN"].strip() + "\n")
json.dump({"property": S["PROPERTY"], "needs": S["NEEDS"], "what_it_breaks": S["BREAKS"]}, open(D + "/meta.json", "w"), indent=1)
ok = False
try:
    a = sh(f"bash {D}/demo.sh", cwd=R)
    if a.returncode:
        print("demo fails on the clean tree", a.returncode, a.stdout[-1500:])
        sys.exit(1)
    for f, o, n in S["EDITS"]:
        p = f"{R}/{f}"
        t = open(p).read()
        assert t.count(o) == 1, (f, t.count(o), o)
        open(p, "w").write(t.replace(o, n))
    open(D + "/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
    b = sh(f"bash {D}/demo.sh", cwd=R)
    if b.returncode in (0, 98, 99):
        print("demo does not fail with the patch:", b.returncode, b.stdout[-1500:])
        sys.exit(1)
    if not fast:
        t = sh("bash /tmp/sc/runtests.sh")
        if "missing []" not in t.stdout:
            print("tests notice it:", t.stdout[-1500:])
            sys.exit(1)
    ok = True
    print(ID, "confirmed")
    if "--check" in sys.argv:
        c = sh(f"python3 {V}/check.py {S['PROPERTY']} quick", cwd=V, env=dict(os.environ, KOFFT_REPO=R))
        print("CHECK rc", c.returncode, *[l[:250] for l in c.stdout.splitlines()[-4:]], sep="\n  ")
finally:
    sh(f"git -C {R} checkout -- .")
    if not ok:
        shutil.rmtree(D)
