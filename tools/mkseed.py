#!/usr/bin/env python3
"""mkseed.py NAME: makes seeded/NAME from the differences in the scratch copy /tmp/w/repo and /tmp/w/NAME.{rs,json}."""
import json
import os
import subprocess
import sys

name = sys.argv[1]
d = f"/verif/seeded/{name}"
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/tmp/w/repo", "diff"], stdout=subprocess.PIPE, text=True).stdout
assert diff.strip(), "no change"
open(d + "/patch.diff", "w").write(diff)
meta = json.load(open(f"/tmp/w/{name}.json"))
json.dump(meta, open(d + "/meta.json", "w"), indent=1)
if os.path.exists(f"/tmp/w/{name}.rs"):
    open(d + "/demo.rs", "w").write(open(f"/tmp/w/{name}.rs").read())
    open(d + "/demo.sh", "w").write(r'''#!/bin/bash
# Builds demo.rs against the library of the current directory, in a scratch directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
noodle = { path = "$repo/noodle" }
T
cd "$t" || exit 2
unset RUSTFLAGS
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" timeout 280 cargo run -q --offline
''')
else:
    open(d + "/demo.sh", "w").write(open(f"/tmp/w/{name}.sh").read())
os.chmod(d + "/demo.sh", 0o755)
