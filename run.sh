#!/bin/bash
# run.sh <property> | --replay <file> | --build      (VERIF_TIER=quick|thorough, VERIF_SEED)
# Builds the harness from /repo's working tree and explores the property.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/harness" || exit 2
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER="$here/tools/rustc-wrap.sh" CARGO_NET_OFFLINE=true KC_VERIF="$here"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$here/target"
log="$here/target/build.log"
(
  flock 9
  RUSTC_WRAPPER= cargo build --profile plain --offline --quiet --target-dir "$here/target/p" >"$log.p" 2>&1 9>&- &
  cargo build --release --offline --quiet --target-dir "$here/target" >"$log" 2>&1; st=$?
  wait $! || { st=1; cat "$log.p" >>"$log"; }
  exit $st
) 9>"$here/target/.lock"
st=$?
if [ $st -ne 0 ]; then
  echo "BUILD-FAILED"; tail -40 "$log"; exit 3
fi
[ "$1" = --build ] && exit 0
bin=release
if [ "$1" = --replay ] && grep -q '"second": true' "$2" 2>/dev/null; then bin=p/plain; export KC_SECOND=/dev/null; fi
exec "$here/target/$bin/kcheck" "$@"
