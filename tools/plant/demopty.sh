#!/bin/bash
# Types the keys of session.json into rtf on a pseudo-terminal; exit 0 when everything expected is seen.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$w/target"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
printf '[package]\nname = "rtf"\nversion = "0.6.8"\nedition = "2018"\n[workspace]\n[[bin]]\nname = "rtf"\npath = "%s/rtf/src/main.rs"\n[dependencies]\nrtforth = { path = "%s" }\ncrossterm = "0.25"\nunicode-width = "0.1"\ngetopts = "0.2.21"\nlazy_static = "1.4.0"\ndirectories = "4.0"\n' "$repo" "$repo" > "$w/Cargo.toml"
(cd "$w" && cargo build --offline -q) > "$w/log" 2>&1 || { tail -20 "$w/log"; exit 2; }
mkdir "$w/home"
timeout 120 python3 "$here/demopty.py" "$w/target/debug/rtf" "$w/home" "$here/session.json"
