#!/bin/bash
# check.sh <property> [--thorough]: builds the checker if needed, then runs the check of one property
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin RUSTUP_TOOLCHAIN=1.80.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset MC_REPO MC_FIRST RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR RUSTC_WRAPPER
mkdir -p target
if ! CARGO_TARGET_DIR="$PWD/target/mc" cargo build --offline --manifest-path mc/Cargo.toml >target/mc.log 2>&1; then
  cat target/mc.log; echo "ERROR: the checker does not build"; exit 2
fi
exec target/mc/debug/mc "$@"
