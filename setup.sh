#!/bin/bash
# Builds everything once so that each check only rebuilds what changed.
set -eu
root="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
cargo build --manifest-path "$root/checks/Cargo.toml" --release --offline --bins
RUSTC_WRAPPER="$root/tools/rustc-portable.sh" cargo build --manifest-path "$root/checks/Cargo.toml" --release --offline --bin c01 --bin c02 --target-dir "$root/checks/target-portable"
