#!/usr/bin/env python3
"""Development aid: plant.py make SPEC.py | test ID | check ID [PROPS...] | all
SPEC.py defines id, property, file, edits=[(old,new)], needs, breaks, demo (Rust source). Works on a scratch clone in /tmp/seed/repo."""
import json, os, subprocess, sys, shutil
sys.path.insert(0, "/tmp/specs")
S = "/tmp/seed"; R = S + "/repo"; D = "/verif/seeded"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2025-05-01", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{S}/target", CARGO_INCREMENTAL="0",
           RUSTFLAGS="--cfg verif_hooks -Awarnings", VERIF_ROOT=S, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_DEADLINE="300")
DEMO = '''#!/bin/bash
# builds demo.rs against the library in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"; cp "$here/demo.lock" "$t/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\ngpf = { path = "%s" }\\nbumpalo = { version = "3.13.0", features = ["collections", "allocator_api"] }\\n[workspace]\\n' "$repo" > "$t/Cargo.toml"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2025-05-01 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUSTFLAGS=-Awarnings
unset CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_RUNNER
(cd "$t" && cargo build --offline -q) || exit 2
ulimit -v 4000000
timeout 60 "$t/target/debug/demo"
'''
def sh(*a, **k): return subprocess.run(a, text=True, capture_output=True, **k)
def reset(): sh("git", "checkout", "-q", ".", cwd=R); sh("git", "pull", "-q", "--ff-only", cwd=R)
def apply(id):
    reset(); r = sh("git", "apply", f"{D}/{id}/patch.diff", cwd=R); assert r.returncode == 0, r.stderr
def make(spec):
    g = {}; exec(open(spec).read(), g); id = g["id"]; reset()
    for e in g["edits"]:
        old, new = e[0], e[1]; n = e[2] if len(e) > 2 else None # n: which occurrence
        p = f"{R}/{g['file']}"; s = open(p).read()
        if n is None: assert s.count(old) == 1, (s.count(old), old); n = 0
        parts = s.split(old)
        open(p, "w").write(old.join(parts[:n + 1]) + new + old.join(parts[n + 1:]))
    os.makedirs(f"{D}/{id}", exist_ok=True)
    open(f"{D}/{id}/patch.diff", "w").write(sh("git", "diff", cwd=R).stdout)
    open(f"{D}/{id}/demo.sh", "w").write(DEMO); os.chmod(f"{D}/{id}/demo.sh", 0o755)
    shutil.copy("/verif/tools/demo.lock", f"{D}/{id}/demo.lock")
    if "demo" in g: open(f"{D}/{id}/demo.rs", "w").write("#![feature(allocator_api, float_next_up_down)]\n" + g["demo"])
    json.dump({"property": g["property"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(f"{D}/{id}/meta.json", "w"), indent=1)
    base = lambda f: sh("git", "show", f"0cd8470:{f}", cwd=R).stdout
    f = None
    for l in open(f"{D}/{id}/patch.diff"):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("-") and l[1:].strip() and l[1:].rstrip("\n") not in base(f).split("\n"): print("NOT A BASE LINE:", l)
    reset(); return id
def demo(id):
    reset(); a = sh("bash", f"{D}/{id}/demo.sh", cwd=R); print(id, "demo clean:", a.returncode, (a.stdout + a.stderr)[-300:])
    apply(id); b = sh("bash", f"{D}/{id}/demo.sh", cwd=R); print(id, "demo patched:", b.returncode, (b.stdout + b.stderr)[-300:]); reset()
    return a.returncode == 0 and b.returncode not in (0, 2)
def tests(id):
    apply(id); env = dict(os.environ); r = sh("bash", f"{S}/test.sh", f"{S}/o.json", env=env); reset()
    o = json.load(open(f"{S}/o.json")); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad = [t for t in st if t not in o.get("passed", o)]
    print(id, "stable tests failing:", bad); return not bad
def check(id, props):
    sh("bash", "-c", f"rsync -a --delete --exclude Cargo.toml /verif/harness/ {S}/harness/ || cp -a /verif/harness/src {S}/harness/; cp /verif/known_findings.txt {S}/")
    apply(id)
    b = sh("cargo", "build", "--offline", "--locked", "-q", "--manifest-path", f"{S}/harness/Cargo.toml", env=ENV)
    if b.returncode: print(b.stderr[-2000:]); reset(); return
    for p in props:
        c = sh("bash", "-c", f"ulimit -v 3500000; exec {S}/target/debug/gv run {p} quick", env=ENV)
        print(id, p, "CAUGHT" if c.returncode == 1 else f"missed rc={c.returncode}"); print("\n".join(x[:500] for x in c.stdout.split("\n")[:3]))
    reset()
if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "make": print(make(sys.argv[2]))
    elif cmd == "demo": demo(sys.argv[2])
    elif cmd == "test": tests(sys.argv[2])
    elif cmd == "check": check(sys.argv[2], sys.argv[3:] or [json.load(open(f"{D}/{sys.argv[2]}/meta.json"))["property"]])
    elif cmd == "full":
        for id in sys.argv[2:]: demo(id) and tests(id); check(id, [json.load(open(f"{D}/{id}/meta.json"))["property"]])
