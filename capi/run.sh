#!/bin/bash
# run.sh | --build | --replay <file>     C36   (VERIF_TIER=quick|thorough)
here="$(cd "$(dirname "$0")/.." && pwd)"
exec env RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true python3 "$here/capi/drive.py" "$here" "$@"
