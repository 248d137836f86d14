#!/bin/bash
# run.sh | --build | --replay <file>     C30   (VERIF_TIER=quick|thorough)
here="$(cd "$(dirname "$0")/.." && pwd)"
exec env RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true python3 "$here/wipe/drive.py" "$here" "$@"
