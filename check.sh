#!/bin/bash
# check.sh PROPERTY [quick|thorough]: static analysis of /repo's current working tree for one property.
# check.sh --setup: build the extractor.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset RUSTC_WRAPPER RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTUP_TOOLCHAIN CARGO_TARGET_DIR RUSTC
exec python3 -B "$here/an/main.py" "$@"
