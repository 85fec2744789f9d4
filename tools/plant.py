"""Record a planted change: plant.py <spec.py>

The spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)...] against /repo and DEMO (Rust main.rs)
or SH (a shell script).  The change is applied to /repo, built, tested and demonstrated, then taken back.
"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SH = """#!/bin/bash
# run with the repository as working directory; fails when the behaviour is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rspolib = { path = "$repo/rust" }
[workspace]
END
export CARGO_TARGET_DIR="$d/target"
cd "$d" || exit 2
cargo build -q --offline || exit 2
timeout 60 ./target/debug/demo
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    sh("git -C /repo checkout -- .")


def tests():
    r = sh("bash /opt/vp/build.sh")
    if r.returncode:
        return "does not build: " + r.stderr[-800:]
    sh("bash /opt/vp/test.sh /tmp/plant-out.json")
    o = json.load(open("/tmp/plant-out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base["stable"]
    bad = [n for n in names if n not in set(o["passed"])]
    return "tests fail: %s" % bad[:5] if bad or not names else None


def main(p):
    g = {}
    exec(open(p).read(), g)
    d = os.path.join(ROOT, "seeded", g["ID"])
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    try:
        for f, old, new in g["EDITS"]:
            q = os.path.join(REPO, f)
            s = open(q).read()
            if s.count(old) != 1:
                sys.exit("%s: %d matches of %r" % (f, s.count(old), old))
            open(q, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        bad = tests()
        if bad:
            sys.exit("%s: %s" % (g["ID"], bad))
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(g.get("SH", SH))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        if "DEMO" in g:
            open(os.path.join(d, "main.rs"), "w").write(g["DEMO"].lstrip("\n"))
        for n, t in g.get("FILES", {}).items():
            open(os.path.join(d, n), "w").write(t)
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        r1 = sh("bash %s/demo.sh" % d, cwd=REPO)
        chk = sh("VERIF_SEED=1 VERIF_TIER=quick ./check.sh %s" % g["PROPERTY"], cwd=ROOT)
    finally:
        clean()
    sh("bash /opt/vp/build.sh")
    r0 = sh("bash %s/demo.sh" % d, cwd=REPO)
    v = [l for l in chk.stdout.splitlines() if "VIOLATION" in l]
    print("%-10s demo with=%d without=%d  check exit=%d %s" % (g["ID"], r1.returncode, r0.returncode, chk.returncode, v[:1]))
    if not r1.returncode or r0.returncode or r1.returncode == 2:
        print("   BAD DEMO", r1.stdout[-500:], r1.stderr[-800:], r0.stderr[-800:])
    if chk.returncode != 1:
        print("   MISSED", chk.stdout[-600:], chk.stderr[-300:])


if __name__ == "__main__":
    for p in sys.argv[1:]:
        main(p)
