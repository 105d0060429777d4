#!/bin/bash
# Warm build of the harnesses. Every check rebuilds what it needs itself.
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/build/ida" "$here/evidence/replay"
export CARGO_NET_OFFLINE=true
cargo build --offline --manifest-path "$here/core/Cargo.toml" --target-dir "$here/build/core" >"$here/build/core.log" 2>&1 || { tail -20 "$here/build/core.log"; exit 1; }
bash "$here/ida/prep.sh" "$here/build/ida/crate" || exit 1
cargo build --offline --manifest-path "$here/ida/harness/Cargo.toml" --target-dir "$here/build/ida/target" --features hooks >"$here/build/ida/build.log" 2>&1 || { tail -20 "$here/build/ida/build.log"; exit 1; }
echo ok
