#!/bin/bash
# Builds the program main.rs beside this file with the crates of the current directory, and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.80.0 RUSTC_BOOTSTRAP=1 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUST_BACKTRACE=0 CARGO_TARGET_DIR="$T/target"
unset RUSTFLAGS
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp "$D/lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
oak = { path = "$R" }
oak_runtime = { path = "$R/runtime" }
syntex_pos = "0.58.1"
[profile.dev]
debug = 0
[workspace]
X
cd "$T" || exit 2
if [ -f "$D/expect" ]; then
  # The program must be rejected with this message.
  timeout 200 cargo build --offline > "$T/log" 2>&1 && { echo accepted; exit 1; }
  grep -E '^error' "$T/log" | head -3
  grep -qF "$(cat "$D/expect")" "$T/log"
  exit
fi
if [ -f "$D/nowarn" ] || [ -f "$D/warn" ]; then
  # The program must be accepted with, or without, this message.
  timeout 200 cargo build --offline > "$T/log" 2>&1 || { grep -E '^error' "$T/log" | head -3; exit 1; }
  [ ! -f "$D/warn" ] || grep -qF "$(cat "$D/warn")" "$T/log" || { echo "no warning"; exit 1; }
  [ ! -f "$D/nowarn" ] || ! grep -qF "$(cat "$D/nowarn")" "$T/log" || { echo "warning"; exit 1; }
  exit 0
fi
timeout 200 cargo build --offline > "$T/log" 2>&1 || { grep -E '^error' "$T/log" | head; exit 1; }
ulimit -v 3000000 -t 30
timeout 60 "$T/target/debug/demo"
