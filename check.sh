#!/bin/bash
# check.sh <property> : builds the harness against /repo's working tree and
# runs one check.  check.sh --build only builds.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$here/harness/target"
unset RUSTFLAGS RUSTC_WRAPPER
export VERIF_DIR="$here"
cd "$here/harness" || exit 2
mkdir -p "$CARGO_TARGET_DIR"
(
  flock 9
  # cargo decides by modification times; the content hash makes sure that a
  # change of /repo is never missed
  sum="$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
  if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" ]; then
    cargo clean --offline -q --release -p amxml >/dev/null 2>&1
  fi
  cargo build --offline -q --release >"$CARGO_TARGET_DIR/build.log" 2>&1 || { cat "$CARGO_TARGET_DIR/build.log"; exit 2; }
  echo "$sum" >"$CARGO_TARGET_DIR/repo.sum"
  if [ "$1" = D11 ] || [ "$1" = "--build" ]; then
    # the sample program of the repository
    cd "$here/program" || exit 2
    export CARGO_TARGET_DIR="$here/program/target"
    mkdir -p "$CARGO_TARGET_DIR"
    if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" ]; then
      cargo clean --offline -q --release -p amxml >/dev/null 2>&1
      cargo clean --offline -q --release -p amxml-program >/dev/null 2>&1
    fi
    cargo build --offline -q --release >"$CARGO_TARGET_DIR/build.log" 2>&1 || { cat "$CARGO_TARGET_DIR/build.log"; [ "$1" = "--build" ] && exit 0; exit 2; }
    echo "$sum" >"$CARGO_TARGET_DIR/repo.sum"
  fi
) 9>"$CARGO_TARGET_DIR/lock" || { echo "build failed"; exit 2; }
[ "$1" = "--build" ] && exit 0
[ "$2" = "--thorough" ] && export VERIF_TIER=thorough
exec "$CARGO_TARGET_DIR/release/pbt" check "$1"
