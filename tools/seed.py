#!/usr/bin/env python3
"""seed.py make|verify|detect ID...: work on the planted bugs of tools/bugs/*.py.

make:   write seeded/<id>/ (patch.diff, demo.sh, demo.rs, meta.json) from the specs
verify: in a scratch copy of /repo, confirm that the patched tree builds, passes the
        existing tests, and that the demo fails with the patch and passes without
detect: apply the patch to /repo, run the check of its property (or those given with
        --checks), undo the patch
"""
import glob, json, os, re, runpy, subprocess, sys, concurrent.futures as cf, queue, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO_SH = '''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
crate="$(pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.83.0-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
export CARGO_TARGET_DIR="$work/target"
mkdir -p "$work/demo/src"
cp "$here/demo.rs" "$work/demo/src/main.rs"
if [ -f "$crate/Cargo.lock" ]; then cp "$crate/Cargo.lock" "$work/demo/"; fi
cat > "$work/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
rgeometry = { path = "$crate"FEATURES }
num = "0.4.3"
ordered-float = "4.6.0"
rand = { version = "0.8", default-features = false, features = ["small_rng"] }
EOF
cd "$work/demo" || exit 2
cargo build --offline -q || exit 3
timeout 60 "$work/target/debug/demo"
'''
def specs():
    out = {}
    for f in sorted(glob.glob(ROOT + "/tools/bugs/*.py")):
        for b in runpy.run_path(f)["BUGS"]:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out
def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr
def make(b):
    d = f"{ROOT}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    diff = ""
    for f in dict.fromkeys(e[0] for e in b["edits"]):
        old = open(f"{REPO}/{f}").read()
        new = old
        for e in b["edits"]:
            if e[0] != f: continue
            n = new.count(e[1])
            if n != 1:
                if len(e) > 3 and n > e[3]:   # pick occurrence number
                    parts = new.split(e[1]); k = e[3]
                    new = e[1].join(parts[:k+1]) + e[2] + e[1].join(parts[k+1:]); continue
                sys.exit(f"{b['id']}: {n} occurrences in {f} of {e[1]!r}")
            new = new.replace(e[1], e[2])
        os.makedirs("/tmp/sd/a/" + os.path.dirname(f), exist_ok=True); os.makedirs("/tmp/sd/b/" + os.path.dirname(f), exist_ok=True)
        open(f"/tmp/sd/a/{f}", "w").write(old); open(f"/tmp/sd/b/{f}", "w").write(new)
        diff += subprocess.run(["diff", "-u", f"a/{f}", f"b/{f}"], cwd="/tmp/sd", capture_output=True, text=True).stdout
    diff = re.sub(r"^(--- \S+|\+\+\+ \S+)\t.*$", r"\1", diff, flags=re.M)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO_SH.replace("FEATURES", ', features = ["rug"]' if b.get("rug") else ""))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(b["demo"].strip() + "\n")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    rc, o = sh(["git", "apply", "--check", d + "/patch.diff"], REPO)
    if rc: sys.exit(f"{b['id']}: patch does not apply: {o}")
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="1.83.0-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never",
           RUSTC_WRAPPER="", PROPTEST_RNG_SEED="20250129", PROPTEST_MAX_SHRINK_TIME="10000")
ENV.pop("CARGO_TARGET_DIR", None)
def scratch(k):
    d = f"/tmp/scratch{k}"
    if not os.path.isdir(d):
        subprocess.run(["cp", "-a", REPO, d], check=True)
    head = subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    sh(["git", "fetch", "-q", REPO, "HEAD"], d); sh(["git", "checkout", "-q", "-f", head], d); sh(["git", "checkout", "-q", "--", "."], d)
    return d
def verify(b, k):
    d = scratch(k); s = f"{ROOT}/seeded/{b['id']}"
    rc, o = sh(["bash", s + "/demo.sh"], d, ENV)
    if rc: return f"{b['id']}: FAIL demo exits {rc} on the unchanged tree\n{o[-1500:]}"
    try:
        rc, o = sh(["git", "apply", s + "/patch.diff"], d)
        if rc: return f"{b['id']}: FAIL apply {o}"
        rc, o = sh("cargo test --workspace --all-targets --no-run --offline && cargo check --lib --features rug --offline".split() if 0 else ["bash", "-c", "cargo test --workspace --all-targets --no-run --offline && cargo check --lib --features rug --offline"], d, ENV)
        if rc: return f"{b['id']}: FAIL does not build\n{o[-2500:]}"
        warn = len(re.findall(r"^warning: (?!.*generated|use of deprecated)", o, re.M))
        rc, o = sh(["bash", "-c", "for a in '--lib --bins' '--test *' '--doc'; do set -f; timeout 300 cargo test --workspace $a --no-fail-fast --offline -- --test-threads 8; done; true"], d, ENV)
        sh(["git", "clean", "-fdq", "proptest-regressions"], d); 
        bad = [l for l in re.findall(r"^test (.*) \.\.\. FAILED", o, re.M)]
        ok = len(re.findall(r"^test (.*) \.\.\. ok", o, re.M))
        if bad or ok < 150: return f"{b['id']}: FAIL tests: {ok} ok, {bad[:6]}"
        rc, o = sh(["bash", s + "/demo.sh"], d, ENV)
        if rc in (0, 2, 3): return f"{b['id']}: FAIL demo exits {rc} with the patch\n{o[-600:]}"
        return f"{b['id']}: verified (tests {ok} ok, {warn} warnings; demo: {[l for l in o.splitlines() if l.strip()][1:2]})"
    finally:
        sh(["git", "checkout", "-q", "--", "."], d)
def detect(b, checks):
    s = f"{ROOT}/seeded/{b['id']}"
    rc, o = sh(["git", "apply", s + "/patch.diff"], REPO)
    if rc: return f"{b['id']}: cannot apply {o}"
    res = []
    try:
        for c in checks or [b["property"]]:
            rc, o = sh([ROOT + "/run.sh", c], ROOT, timeout=1500)
            hit = rc == 1 and f"VIOLATION property={c}" in o
            why = [l for l in o.splitlines() if l.startswith("part ")]
            res.append(f"{c}:{'caught' if hit else 'missed' if rc == 0 else f'rc={rc}'} {why[0][:160] if why and hit else ''}")
    finally:
        sh(["git", "checkout", "--", "."], REPO)
    return f"{b['id']}: " + " | ".join(res)
if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    checks = None
    if "--checks" in args:
        i = args.index("--checks"); checks = args[i+1].split(","); args = args[:i]
    sp = specs(); todo = [b for i, b in sp.items() if not args or any(i == a or (a.endswith("*") and i.startswith(a[:-1])) for a in args)]
    if cmd == "make":
        for b in todo: make(b)
    elif cmd == "verify":
        q = queue.Queue()
        for k in range(4): q.put(k)
        def go(b):
            k = q.get()
            try: return verify(b, k)
            except Exception as e: return f"{b['id']}: FAIL {e!r}"
            finally: q.put(k)
        with cf.ThreadPoolExecutor(4) as ex:
            for r in ex.map(go, todo): print(r, flush=True)
    elif cmd == "detect":
        for b in todo: print(detect(b, checks), flush=True)
