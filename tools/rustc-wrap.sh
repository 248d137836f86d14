#!/bin/bash
# RUSTC_WRAPPER: compiles the crates of /repo with a call at every memory access and atomic operation (the calls
# ThreadSanitizer's pass inserts; the harness defines them), which are the scheduling points.  Every other crate is
# compiled as usual.
rustc="$1"; shift
prev=; name=
for a in "$@"; do
  if [ "$prev" = --crate-name ]; then name="$a"; break; fi
  prev="$a"
done
case "$name" in
  bip39|keychain|secp256k1_bip32|rust_keychain)
    export RUSTC_BOOTSTRAP=1
    exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer \
      -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-read-before-write=1 ;;
  kcheck) export RUSTC_BOOTSTRAP=1; exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
  *) exec "$rustc" "$@" ;;
esac
