#!/bin/bash
# rustc wrapper: drops the CPU-feature cfgs that /repo/build.rs emits, so that the
# portable code paths of rcrypto are compiled on any machine.
rustc="$1"; shift
args=()
while [ $# -gt 0 ]; do
    if [ "$1" = "--cfg" ]; then
        case "${2:-}" in
            rcrypto_aes=*|rcrypto_sse2=*|rcrypto_sha=*) shift 2; continue ;;
        esac
    fi
    args+=("$1"); shift
done
exec "$rustc" "${args[@]}"
