#!/bin/sh
# builds main.rs (beside this file) against the crate in the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"; cp "$D/main.rs" "$W/src/main.rs"; cp /opt/vp/ws/Cargo.lock.pinned "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
bbs = { path = "$R/libzmix/bbs" }
pairing-plus = "0.19"
ff-zeroize = "0.6"
rand = "0.7"
[workspace]
T
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target"
cd "$W" && cargo build --offline -q 2>/dev/null || { echo "demo does not build"; exit 2; }
timeout 120 "$W/target/debug/demo"; exit $?
