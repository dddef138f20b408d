#!/usr/bin/env python3
"""Development helper (no check uses it): makes and verifies planted bugs.

plant.py SPEC.py   where SPEC.py defines BUGS = [dict(id, property, needs,
what, edits=[(file, old, new)…], demo="rust main()")…].
Each one is applied to /repo, built, run against the stable tests and its
demo, and undone.  `plant.py --check ID…` runs the property's quick check with
the patch applied."""
import json, os, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO = '''#!/bin/bash
# builds a small program against the crate in the working directory and runs it
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
T="$(mktemp -d)"
trap 'cd /; rm -r -- "$T"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target"
export PATH=/root/.cargo/bin:$PATH
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2024"\\n[dependencies]\\nasciidoc-parser = { path = "%s/parser" }\\n[workspace]\\n' "$R" > "$T/Cargo.toml"
cd "$T" && cargo build -q --offline || exit 2
timeout 60 "$T/target/debug/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    assert sh("git -C /repo checkout -- . && git -C /repo status --porcelain").stdout == ""


def tests():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode:
        return "build: " + b.stdout[-2000:]
    o = tempfile.mktemp(suffix=".json")
    sh(f"bash /opt/vp/test.sh {o}")
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    got = set(json.load(open(o))["passed"])
    os.unlink(o)
    return f"tests: {sorted(base - got)[:6]}" if base - got else ""


def demo(d):
    return sh(f"bash {d}/demo.sh", cwd=R)


def make(b):
    d = f"{V}/seeded/{b['id']}"
    clean()
    os.makedirs(d, exist_ok=True)
    open(f"{d}/main.rs", "w").write(b["demo"])
    open(f"{d}/demo.sh", "w").write(DEMO)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(f"{d}/meta.json", "w"), indent=1)
    p = demo(d)
    if p.returncode:
        return "demo fails on the unchanged tree: " + p.stdout[-800:]
    try:
        for f, old, new in b["edits"]:
            p = f"{R}/parser/src/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return f"{f}: {s.count(old)} matches for {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        open(f"{d}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        e = tests()
        if e:
            return e
        p = demo(d)
        if p.returncode in (0, 2):
            return f"demo exits {p.returncode} with the patch: {p.stdout[-600:]}"
        return ""
    finally:
        clean()


def check(i):
    d = f"{V}/seeded/{i}"
    pid = json.load(open(f"{d}/meta.json"))["property"]
    clean()
    try:
        p = sh(f"git -C /repo apply {d}/patch.diff")
        if p.returncode:
            return "patch does not apply " + p.stdout
        t = time.time()
        p = sh(f"python3 {V}/check.py {pid} quick")
        l = [x for x in p.stdout.splitlines() if x.startswith("VIOLATION")]
        return f"{'CAUGHT' if p.returncode == 1 and l else 'MISSED'} by {pid} rc {p.returncode} {time.time() - t:.0f}s {l[:1]}" + ("" if p.returncode in (0, 1) else p.stdout[-500:])
    finally:
        clean()


if __name__ == "__main__":
    if sys.argv[1] == "--check":
        for i in sys.argv[2:] or sorted(os.listdir(f"{V}/seeded")):
            print(i, check(i), flush=True)
    else:
        g = {}
        exec(open(sys.argv[1]).read(), g)
        only = sys.argv[2:]
        for b in g["BUGS"]:
            if not only or b["id"] in only:
                print(b["id"], make(b) or "ok", flush=True)
    sh(f"bash /opt/vp/build.sh")
