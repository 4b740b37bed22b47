#!/bin/bash
# Runs cases.txt on the rtforth of the current directory; exit 0 when every result is as recorded.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$w/target"
mkdir -p "$w/src" "$w/run"
cp "$here/demo.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nrtforth = { path = "%s" }\n' "$repo" > "$w/Cargo.toml"
(cd "$w" && cargo build --offline -q) > "$w/log" 2>&1 || { tail -20 "$w/log"; exit 2; }
cp "$here"/*.fth "$w/run" 2>/dev/null
cd "$w/run" && timeout 60 "$w/target/debug/demo" "$here/cases.txt" $1
