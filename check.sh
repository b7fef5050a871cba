#!/bin/bash
# Usage: check.sh Cxx | build | replay FILE
# Builds the monitors against /repo's working tree and runs the check of one property.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/harness" || exit 2
export MON_ROOT="$here" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$here/harness/target"
unset RUSTFLAGS RUSTC_WRAPPER RUST_BACKTRACE RUST_LOG CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence"
exec 9>"$CARGO_TARGET_DIR/.check.lock"
flock 9
# Cargo goes by modification times; a copied tree may carry old ones, so go by content
stamp="$( (cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)"
if [ "$(cat "$CARGO_TARGET_DIR/.repo-stamp" 2>/dev/null)" != "$stamp" ]; then
  cargo clean --offline -q -p sgmlish >/dev/null 2>&1
fi
log="$CARGO_TARGET_DIR/build-$$.log"
features=
if ! cargo build --offline -q >"$log" 2>&1; then
  grep -A12 "^error" "$log" | head -60 >&2
  # A public combinator may have another signature: all checks but C26 go without
  features=--no-default-features
  if ! cargo build --offline -q $features >"$log" 2>&1; then
    rm -f "$log"
    echo "BUILD-FAILED" >&2
    exit 2
  fi
  echo "note: built without the check of the public combinators" >&2
fi
# The thorough tier also runs without debug assertions, and under AddressSanitizer
want_asan=0 want_release=0
[ "${VERIF_TIER:-}" = thorough ] && want_asan=1 want_release=1
[ "${1:-}" = replay ] && case "${2:-}" in *-asan-*) want_asan=1;; *-release-*) want_release=1;; esac
if [ $want_release = 1 ]; then
  if [ "$(cat "$CARGO_TARGET_DIR/.release-stamp" 2>/dev/null)" != "$stamp" ]; then
    cargo clean --offline -q --release -p sgmlish >/dev/null 2>&1
  fi
  if cargo build --offline -q --release $features >"$log" 2>&1; then
    echo "$stamp" >"$CARGO_TARGET_DIR/.release-stamp"
    export MON_RELEASE_BIN="$CARGO_TARGET_DIR/release/mon"
  else
    echo "note: no release build: $(grep -m1 "^error" "$log")" >&2
  fi
fi
if [ $want_asan = 1 ]; then
  t=x86_64-unknown-linux-gnu
  if [ "$(cat "$CARGO_TARGET_DIR/.asan-stamp" 2>/dev/null)" != "$stamp" ]; then
    CARGO_TARGET_DIR="$CARGO_TARGET_DIR/asan" cargo +nightly clean --offline -q --target $t -p sgmlish >/dev/null 2>&1
  fi
  if RUSTFLAGS="-Zsanitizer=address" CARGO_TARGET_DIR="$CARGO_TARGET_DIR/asan" cargo +nightly build --offline -q $features --target $t >"$log" 2>&1; then
    echo "$stamp" >"$CARGO_TARGET_DIR/.asan-stamp"
    export MON_ASAN_BIN="$CARGO_TARGET_DIR/asan/$t/debug/mon"
  else
    echo "note: no AddressSanitizer build: $(grep -m1 "^error" "$log")" >&2
  fi
fi
rm -f "$log"
echo "$stamp" >"$CARGO_TARGET_DIR/.repo-stamp"
bin="$CARGO_TARGET_DIR/debug/mon"
if [ "${1:-}" = build ]; then exit 0; fi
run="$CARGO_TARGET_DIR/debug/mon-$$"
cp "$bin" "$run" || exit 2
flock -u 9
trap 'rm -f "$run"' EXIT
if [ "${1:-}" = replay ]; then "$run" replay "$2"; else "$run" run "$1"; fi
