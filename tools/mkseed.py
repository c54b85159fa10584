#!/usr/bin/env python3
"""Turn a planted-bug spec (python file defining ID, PROP, EDITS, NEEDS, BREAKS, MAIN, DEPS, LIB) into
seeded/<ID>/ and test it: mkseed.py SPEC... writes; seedtest.py verifies.

Only a development tool: no check reads seeded/."""
import json, os, subprocess, sys, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "65b92ad"
DEMO = '''#!/bin/bash
# Builds the small program beside this file against /repo and runs it: 0 when the guarantee holds.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null || true
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
%(deps)s
[profile.dev]
debug = 0
EOF
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTFLAGS="-Alegacy_derive_helpers" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUSTFMT="$(rustup which rustfmt)"
cd "$work"
cargo build -q --offline 2>build.log || { tail -20 build.log; exit %(builderr)d; }
timeout 120 ./target/debug/demo
'''
D = {
 'cash': 'bitcoin-cash = { path = "$repo/bitcoin-cash" }',
 'base': 'bitcoin-cash-base = { path = "$repo/bitcoin-cash-base" }',
 'code': 'bitcoin-cash-code = { path = "$repo/bitcoin-cash-code" }',
 'slp': 'bitcoin-cash-slp = { path = "$repo/bitcoin-cash-slp" }',
 'ecc': 'bitcoin-cash-ecc = { path = "$repo/bitcoin-cash-ecc", default-features = false, features = ["c_ecc"] }',
 'recc': 'bitcoin-cash-ecc = { path = "$repo/bitcoin-cash-ecc", default-features = false, features = ["rust_ecc"] }',
 'serde': 'serde = { version = "1.0", features = ["derive"] }',
 'json': 'serde_json = "1.0"', 'bincode': 'bincode = "1.3"', 'hex': 'hex = "0.4"',
}
def make(spec):
    g = {}
    exec(open(spec).read(), g)
    out = os.path.join(ROOT, "seeded", g['ID']); os.makedirs(out, exist_ok=True)
    wt = tempfile.mkdtemp(prefix="mkseed")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt + "/w", "HEAD"])
        for f, old, new in g['EDITS']:
            p = wt + "/w/" + f; s = open(p).read()
            if s.count(old) != 1: sys.exit("%s: %d matches in %s for %r" % (g['ID'], s.count(old), f, old[:60]))
            # blame
            line0 = s[:s.index(old)].count("\n") + 1; n = old.rstrip("\n").count("\n") + 1
            newl = new.split("\n"); 
            s2 = s.replace(old, new); open(p, "w").write(s2)
        diff = subprocess.check_output(["git", "-C", wt + "/w", "diff"], text=True)
        bad = []
        cur = None; 
        import re
        for l in diff.split("\n"):
            m = re.match(r"--- a/(.*)", l)
            if m: cur = m.group(1)
            m = re.match(r"@@ -(\d+)", l)
            if m: ln = int(m.group(1)); continue
            if l.startswith("-") and not l.startswith("---"):
                b = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-l", "-L", "%d,%d" % (ln, ln), "HEAD", "--", cur], text=True)
                h = b.split()[0].lstrip("^")
                if subprocess.call(["git", "-C", "/repo", "merge-base", "--is-ancestor", h, BASE]) != 0: bad.append((cur, ln, l))
                ln += 1
            elif l.startswith(" "): ln += 1
        if bad: print("WARNING", g['ID'], "touches own lines:", bad)
        open(out + "/patch.diff", "w").write(diff)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", wt + "/w"]); shutil.rmtree(wt, ignore_errors=True)
    open(out + "/demo.sh", "w").write(DEMO % dict(deps="\n".join(D[d] for d in g['DEPS'].split()), builderr=g.get('BUILDERR', 1)))
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/main.rs", "w").write(g['MAIN'].lstrip("\n"))
    json.dump({"property": g['PROP'], "needs": g['NEEDS'], "what_it_breaks": g['BREAKS']}, open(out + "/meta.json", "w"), indent=1)
    print("wrote", out)
for s in sys.argv[1:]: make(s)
