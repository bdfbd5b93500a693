#!/bin/bash
# builds main.rs beside this file against the crates of the current directory and runs it
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.99.0-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS
W=$(mktemp -d /tmp/vp-demo.XXXXXX)
mkdir -p "$W/src"
cp "$HERE/main.rs" "$W/src/main.rs"
cp "$REPO/Cargo.lock" "$W/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
x-bow = { path = "$REPO/x-bow" }
async_ui_internal_utils = { path = "$REPO/async_ui_internal_utils" }
async_ui_web_core = { path = "$REPO/async_ui_web_core" }
futures-lite = "1.13.0"
futures-core = "0.3.28"
T
cd "$W" && cargo run -q --offline --target x86_64-unknown-linux-gnu
rc=$?
cd /tmp
[ -n "$W" ] && find "$W" -delete
exit $rc
