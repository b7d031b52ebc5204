#!/bin/bash
# run.sh quick|thorough <ID>   build from /repo's current tree, then check one property
# run.sh build                 only build
# run.sh replay <file>         re-run a replay file
# Exit: 0 held, 1 violation, anything else: no answer.
set -u
. /opt/vp/env.sh
V=/verif
cd "$V" || exit 3
export CARGO_TARGET_DIR="$V/target" CARGO_INCREMENTAL=0
build() {
  mkdir -p "$V/target" "$V/out"
  # cargo decides by modification time; a tree that was swapped in may carry older times
  local h
  h=$(cd /repo && find sds sds-bindings-utils sds-go/rust \( -name target -prune \) -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 \
      | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$h" != "$(cat "$V/target/.src" 2>/dev/null)" ] && [ -d "$V/target/release" ]; then
    (cd harness && cargo clean --offline --release -p dd-sds -p sds-bindings-utils -p dd_sds_go -p sdsv) >/dev/null 2>&1
    rm -f "$V/target/.src"
  fi
  (cd harness && cargo build --offline --release) >"$V/out/build.log" 2>&1 || {
    tail -40 "$V/out/build.log" >&2
    echo "run.sh: the harness does not build against /repo's tree" >&2
    exit 3
  }
  echo "$h" >"$V/target/.src"
}
# The Go binding, linked with the shared library that the build above made.
gobuild() {
  mkdir -p "$V/target/golib"
  cp "$V/target/release/deps/libdd_sds_go.so" "$V/target/golib/libdd_sds_go.so.new" &&
    mv "$V/target/golib/libdd_sds_go.so.new" "$V/target/golib/libdd_sds_go.so" &&
    (cd goexec && GOCACHE="$V/target/gocache" GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-buildvcs=false CGO_ENABLED=1 \
      CGO_LDFLAGS="-L$V/target/golib -Wl,-rpath,$V/target/golib" go build -o "$V/target/goexec" .) >"$V/out/gobuild.log" 2>&1 || {
    tail -40 "$V/out/gobuild.log" >&2
    echo "run.sh: the Go program does not build against /repo's tree" >&2
    exit 3
  }
}
case "${1:-}" in
  build) build; gobuild ;;
  quick|thorough) build; case "$2" in P20|P26) gobuild;; esac; exec "$V/target/release/sdsv" run "$2" "$1" ;;
  replay) build; gobuild; exec "$V/target/release/sdsv" replay "$2" ;;
  *) sed -n 2,5p "$0"; exit 2 ;;
esac
