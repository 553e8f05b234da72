#!/usr/bin/env python3
"""mkseed.py ID: reads /tmp/seeds/ID.py {property, needs, what_it_breaks, edits:[[file, old, new]], demo, deps?}; writes /verif/seeded/ID (a development aid)."""
import json, os, subprocess, sys
SH = '''#!/bin/bash
# Runs in the repository: builds a small program against its crates. Exit 0 if the property holds.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_NET_OFFLINE=true
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"; cp "$repo/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
flarch = { path = "$repo/flarch" }
flcrypto = { path = "$repo/flcrypto", features = ["testing"] }
flmodules = { path = "$repo/flmodules", features = ["testing"] }
anyhow = "1"
bytes = "1"
tokio = { version = "1", features = ["full"] }
%s
[workspace]
EOT
cd "$t" && CARGO_TARGET_DIR=${REPO_TARGET:-$repo/target-common} timeout 250 cargo run -q --offline
'''
i = sys.argv[1]
exec(open(f"/tmp/seeds/{i}.py").read())
d = f"/verif/seeded/{i}"
os.makedirs(d, exist_ok=True)
git = lambda *a: subprocess.run(["git", "-C", "/tmp/sw", *a], check=True, capture_output=True, text=True).stdout
git("fetch", "-q", "origin"); git("checkout", "-q", "--force", "origin/HEAD")
for f, old, new in edits:
    p = f"/tmp/sw/{f}"
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
open(d + "/patch.diff", "w").write(git("diff"))
git("checkout", "-q", "--", ".")
open(d + "/demo.rs", "w").write(demo)
open(d + "/demo.sh", "w").write(SH % globals().get("deps", ""))
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
