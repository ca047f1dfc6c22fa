#!/bin/bash
# run.sh check <property> quick|thorough   - build from /repo's tree and run one check
# run.sh replay <file>                     - re-run one recorded case
# run.sh setup                             - build everything once
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VWMC_ROOT="$ROOT"
. /opt/vp/env.sh >/dev/null 2>&1
export RUSTFLAGS=-Awarnings CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$ROOT/target"
cd "$ROOT/harness" || exit 2
build() {
  local i
  for i in 1 2; do
    cargo build --release --offline -q $1 2>"$ROOT/target/build.log" && return 0
  done
  grep -vE '^warning' "$ROOT/target/build.log" | tail -40 >&2
  return 1
}
# the command line tool and the shim that injects faults into it
build_cli() {
  local i
  for i in 1 2; do
    (cd /repo && CARGO_TARGET_DIR="$ROOT/target/cli" CARGO_PROFILE_DEV_DEBUG=0 \
      cargo build --offline -q -p vimwiki-cli 2>"$ROOT/target/build-cli.log") && break
    [ $i = 2 ] && { grep -vE '^warning' "$ROOT/target/build-cli.log" | tail -40 >&2; return 1; }
  done
  gcc -O1 -shared -fPIC -o "$ROOT/target/shim.so" "$ROOT/harness/shim/shim.c" -ldl || return 1
}
export VWMC_CLI="$ROOT/target/cli/debug/vimwiki" VWMC_SHIM="$ROOT/target/shim.so"
mkdir -p "$ROOT/target" "$ROOT/evidence"
case "$1 $2" in
  "setup "*|"check P2"[6-9]*|"check P30"*|"check P38"*|"run P2"[6-9]*|"run P30"*|"run P38"*|"one P2"[6-9]*|"one P30"*|"one P38"*|"replay "*)
    build_cli || { echo "run.sh: build of vimwiki-cli failed" >&2; exit 2; } ;;
esac
# the binding for JavaScript is only built for the checks on it
case "$1 $2" in
  "check P4"[23]*|"run P4"[23]*|"one P4"[23]*|"replay "*P4[23]-*)
    export CARGO_TARGET_DIR="$ROOT/target/wasm"
    build "--features wasm" || { echo "run.sh: build failed" >&2; exit 2; } ;;
  *) build || { echo "run.sh: build failed" >&2; exit 2; } ;;
esac
[ "$1" = setup ] && (export CARGO_TARGET_DIR="$ROOT/target/wasm"; build "--features wasm")
BIN="$CARGO_TARGET_DIR/release/vwmc"
case "$1" in
  setup) exit 0 ;;
  check) exec "$BIN" run "$2" "${3:-quick}" ;;
  replay) exec "$BIN" replay "$2" ;;
  *) exec "$BIN" "$@" ;;
esac
