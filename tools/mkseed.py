#!/usr/bin/env python3
"""mkseed.py SPEC.py...   makes and confirms planted bugs: /verif/seeded/<id>/ from a spec (a Python file defining
ID, PROPERTY, NEEDS, WHAT, EDITS [(file, old, new)], DEPS [crates], MAIN (Rust source of the demonstration)).
Confirms: builds, stable tests pass, demo fails with the patch and passes without, and says what the check does."""
import json, os, subprocess, sys, runpy, shutil

R = "/tmp/seedwt"  # a scratch clone of /repo: /repo itself is never touched
M = "/tmp/seedmirror"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the repository; copies its sources to a scratch directory, adds the crate beside this file and runs it
set -eu
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
tar -C . --exclude=./target --exclude=./.git -cf - . | tar -C "$W" -xf -
find "$W" -name Cargo.toml -exec sed -i '/^[[:space:]]*validate/d' {} +
mkdir -p "$W/zz_demo/src"
cp "$D/main.rs" "$W/zz_demo/src/main.rs"
cp "$D/demo.toml" "$W/zz_demo/Cargo.toml"
sed -i 's/^members = \\[/members = [ "zz_demo",/' "$W/Cargo.toml"
cd "$W"
export CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings PATH=/root/.cargo/bin:$PATH
CARGO_TARGET_DIR="$W/target" timeout 280 cargo run --offline -q -p zz_demo
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def demo(d):
    p = sh(f"bash {d}/demo.sh", cwd=R)
    return p.returncode, p.stdout[-600:]


def main(spec):
    s = runpy.run_path(spec)
    d = os.path.join(HERE, "seeded", s["ID"])
    sh(f"test -d {R} || git clone -q /repo {R}; git -C {R} checkout -q -- .; git -C {R} pull -q")
    assert not sh(f"git -C {R} status --porcelain").stdout.strip(), "not clean"
    os.makedirs(d, exist_ok=True)
    for f, t in (("demo.sh", DEMO), ("main.rs", s["MAIN"]),
                 ("demo.toml", '[package]\nname = "zz_demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n' +
                  "".join(f'{c} = {{ path = "../{c}" }}\n' if c != "simple" else 'simple = { path = ".." }\n' for c in s["DEPS"])),
                 ("meta.json", json.dumps({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["WHAT"]}, indent=1))):
        with open(os.path.join(d, f), "w") as h:
            h.write(t)
    ok = True
    rc0, o0 = demo(d)
    print(s["ID"], "demo on the unchanged tree:", rc0, "" if rc0 == 0 else o0)
    ok &= rc0 == 0
    try:
        for f, old, new in s["EDITS"]:
            t = open(f"{R}/{f}").read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(f"{R}/{f}", "w").write(t.replace(old, new))
        with open(os.path.join(d, "patch.diff"), "w") as h:
            h.write(sh(f"git -C {R} diff").stdout)
        rc1, o1 = demo(d)
        print(s["ID"], "demo with the patch:", rc1, o1[-300:])
        ok &= rc1 != 0 and "error: could not compile" not in o1 and "error[" not in o1
        if "--no-tests" not in sys.argv:
            m = open("/opt/vp/mirror.py").read().replace('"/repo", "/opt/vp/mirror"', f'"{R}", "{M}"')
            assert M in m
            open("/tmp/seedmirror.py", "w").write(m)
            p = sh(f". /opt/vp/env.sh; export CARGO_TARGET_DIR={M}/target; python3 /tmp/seedmirror.py && cd {M} && cargo test --workspace --features parallel --no-fail-fast --offline -- --test-threads 8 > /tmp/seed.log 2>&1; python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed.log")
            r = json.load(open("/tmp/seed.json"))
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            miss = sorted(base - set(r["passed"]))
            print(s["ID"], "stable tests lost:", miss[:8])
            ok &= not miss
        if "--no-check" not in sys.argv:
            p = sh(f"VERIF_REPO={R} VERIF_SEED=1 VERIF_TIER=quick python3 check.py {s['PROPERTY']} quick", cwd=HERE)
            print(s["ID"], "check:", p.returncode, p.stdout[-700:])
    finally:
        sh(f"git -C {R} checkout -- .")
    print(s["ID"], "KEEP" if ok else "REJECT")
    return ok


if __name__ == "__main__":
    for a in sys.argv[1:]:
        if not a.startswith("-"):
            main(a)
