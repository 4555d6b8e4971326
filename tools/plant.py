#!/usr/bin/env python3
"""plant.py BUGS.py [ID...]: make seeded/<id>/ from definitions and confirm each one.
A definition: B(id, prop, [(file, old, new), ...], needs, breaks, demo_rust)   (see any seeded/*/ for results)
Steps per bug, in /repo (restored afterwards): demo on clean tree passes; patched tree builds, passes the stable
tests, fails the demo; then the property's quick check is run and must report."""
import json, os, subprocess, sys, tempfile
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
export PATH="$HOME/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
stratum-dsp = { path = "$R" }
serde_json = "1"
[profile.dev]
opt-level = 1
debug = false
EOF
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo build --offline --quiet 2>"$T/log" || { tail -20 "$T/log"; exit 3; }
exec_demo() { timeout 200 "$T/target/debug/demo"; }
exec_demo
'''
BUGS = []
def B(id, prop, edits, needs, breaks, demo, sh=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, sh=sh))
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def tests_ok():
    r = sh("bash /opt/vp/build.sh")
    if r.returncode: return "does not build: " + r.stderr[-600:]
    with tempfile.NamedTemporaryFile(suffix=".json") as f: pass
    r = sh(f"bash /opt/vp/test.sh {f.name}")
    d = json.load(open(f.name)); os.unlink(f.name)
    base = json.load(open("/opt/vp/BASELINE.json"))
    def passed(x):
        if isinstance(x, dict):
            for k in ("stable", "stable_tests", "passed", "pass", "tests"):
                if k in x and isinstance(x[k], (list, dict)): return set(x[k])
        return set(x)
    miss = passed(base) - passed(d)
    return f"tests fail: {sorted(miss)[:4]}" if miss else None
def main():
    exec(open(sys.argv[1]).read(), globals())
    want = sys.argv[2:]
    out = []
    for b in BUGS:
        if want and b["id"] not in want: continue
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo not clean"
        dst = f"{D}/seeded/{b['id']}"
        try:
            for f, old, new in b["edits"]:
                s = open("/repo/" + f).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old))
                open("/repo/" + f, "w").write(s.replace(old, new))
            patch = sh("git -C /repo diff").stdout
            os.makedirs(dst, exist_ok=True)
            open(dst + "/patch.diff", "w").write(patch)
            open(dst + "/demo.sh", "w").write(b["sh"] or DEMO); os.chmod(dst + "/demo.sh", 0o755)
            if b["demo"]: open(dst + "/demo.rs", "w").write(b["demo"])
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
            t = tests_ok()
            dm = sh(f"{dst}/demo.sh", cwd="/repo")
            ck = sh(f"./check.sh {b['prop']} quick", cwd=D)
        finally:
            sh("git -C /repo checkout -- .")
        dc = sh(f"{dst}/demo.sh", cwd="/repo")
        caught = ck.returncode == 1 and f"VIOLATION property={b['prop']} " in ck.stdout
        ok = t is None and dm.returncode not in (0, 3) and dc.returncode == 0
        line = f"{b['id']:28} {b['prop']} valid={ok} caught={caught}"
        if not ok: line += f"  [{t}; demo patched rc={dm.returncode} {dm.stdout[-200:]}{dm.stderr[-200:]}; clean rc={dc.returncode} {dc.stdout[-300:]}{dc.stderr[-200:]}]"
        if not caught: line += f"  check rc={ck.returncode} {ck.stdout[-300:]}"
        else: line += "  " + [l for l in ck.stdout.splitlines() if l.startswith("  case") or l.startswith("  normal") or l.startswith("  key")][:1].__repr__()[:200]
        print(line, flush=True)
if __name__ == "__main__": main()
