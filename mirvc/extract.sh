#!/bin/bash
# emit the MIR of /repo's current working tree:  extract.sh REPO TARGETDIR OUT.mir
set -e
REPO=$1; TD=$2; OUT=$3
export RUSTUP_TOOLCHAIN=1.88.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_BOOTSTRAP=1
cd "$REPO"
touch_src=src/lib.rs
cargo rustc --offline --quiet --lib --target-dir "$TD" -- --emit=mir -Zmir-opt-level=0 -Ztrim-diagnostic-paths=no -C overflow-checks=on -C debug-assertions=off -Awarnings
cp "$(ls -t "$TD"/debug/deps/serde_yaml-*.mir | head -1)" "$OUT"
