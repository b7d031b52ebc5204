#!/bin/bash
# builds the shared library of the Go binding (proj/) and the Go program in go/ against /repo, and runs it
set -u
export PATH=/root/.cargo/bin:$PATH HOME=/root RUSTUP_TOOLCHAIN=1.83.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp -r "$D/proj" "$D/go" "$T/"
cd "$T/proj" || exit 3
CARGO_TARGET_DIR="$T/target" cargo build --offline --quiet 2>"$T/log" || { cat "$T/log"; exit 4; }
mkdir "$T/lib" && cp "$T/target/debug/deps/libdd_sds_go.so" "$T/lib/" || exit 4
cd "$T/go" || exit 3
GOCACHE="$T/gocache" GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-buildvcs=false CGO_ENABLED=1 \
  CGO_LDFLAGS="-L$T/lib -Wl,-rpath,$T/lib" go build -o "$T/demo" . 2>"$T/log" || { cat "$T/log"; exit 4; }
"$T/demo"
