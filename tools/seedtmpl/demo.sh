#!/bin/bash
# Builds and runs demo.rs (beside this file) against the crate in the current directory.
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$(pwd)
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"; cp "$HERE/demo.rs" "$W/src/main.rs"
[ -f "$REPO/Cargo.lock" ] && cp "$REPO/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
numopt = { path = "$REPO", features = [$(cat "$HERE/features" 2>/dev/null)] }
libc = "0.2"
simple-error = "0.2"
[workspace]
T
cd "$W" && CARGO_TARGET_DIR="$W/target" cargo build --offline -q >"$W/log" 2>&1 || { cat "$W/log"; exit 3; }
cd "$W" && TMPDIR="$W" timeout 120 ./target/debug/demo
