#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
rustc -A warnings --crate-type rlib --crate-name amxml src/lib.rs -o "$tmp/libamxml.rlib" || exit 2
rustc -A warnings "$here/demo.rs" --extern amxml="$tmp/libamxml.rlib" -o "$tmp/demo" || exit 2
timeout 60 "$tmp/demo"
