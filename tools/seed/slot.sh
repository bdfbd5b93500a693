#!/bin/bash
# builds main.rs beside this file with the DynamicSlot of the current directory and runs it
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.99.0-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS
W=$(mktemp -d /tmp/vp-demo.XXXXXX)
mkdir -p "$W/src"
cp "$HERE/main.rs" "$W/src/main.rs"
cp "$REPO/async_ui_web/src/components/dynamic_slot.rs" "$W/src/dynamic_slot.rs"
cp "$REPO/Cargo.lock" "$W/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
async_ui_internal_utils = { path = "$REPO/async_ui_internal_utils" }
futures-lite = "1.13.0"
T
cd "$W" && cargo run -q --offline --target x86_64-unknown-linux-gnu
rc=$?
cd /tmp
[ -n "$W" ] && find "$W" -delete
exit $rc
