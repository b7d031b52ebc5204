#!/bin/bash
# builds the program in proj/ against the crate in /repo and runs it
set -u
export PATH=/root/.cargo/bin:$PATH HOME=/root RUSTUP_TOOLCHAIN=1.83.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp -r "$D/proj" "$T/proj"
cd "$T/proj" || exit 3
CARGO_TARGET_DIR="$T/target" cargo build --offline --quiet 2>"$T/log" || { cat "$T/log"; exit 4; }
"$T/target/debug/demo"
