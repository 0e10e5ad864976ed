#!/bin/bash
# run.sh <property> [args]: rebuild the check of one property from /repo's working tree and run it.
# Exit 0: held; 1: violation; anything else: the check itself failed.
set -u
root="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
export VERIF_ROOT="$root" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
build() { # target dir, wrapper
    local log
    log="$(mktemp)"
    if ! RUSTC_WRAPPER="$2" cargo build --manifest-path "$root/checks/Cargo.toml" --release --offline --bin "$bin" --target-dir "$1" >"$log" 2>&1; then
        echo "ERROR: building the check failed" >&2
        grep -E '^error' -A12 "$log" >&2 || cat "$log" >&2
        rm -f "$log"
        exit 2
    fi
    rm -f "$log"
}
build "$root/checks/target" ""
case "$bin" in
    c01|c02)
        # the portable code paths are a second build of the same check
        build "$root/checks/target-portable" "$root/tools/rustc-portable.sh"
        export VERIF_PEER="$root/checks/target-portable/release/$bin"
        ;;
esac
exec "$root/checks/target/release/$bin" "$@"
