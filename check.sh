#!/bin/bash
# Usage: check.sh PROPERTY. Builds the monitors against /repo's working tree and
# runs those of the property (VERIF_SEED, VERIF_TIER).
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$here/target" LDMON_HOME="$here"
log="$here/target/build.log"
mkdir -p "$here/target" "$here/evidence"
build() {
  if ! (cd "$here/$1" && cargo build --offline --locked) >"$log" 2>&1; then
    tail -40 "$log" >&2
    echo "$1 does not build" >&2
    exit 3
  fi
}
# The interpreter and the instrumented build of C14.
watched() {
  cd "$here/harness" || exit 3
  (
    export CARGO_TARGET_DIR="$here/target/miri" XDG_CACHE_HOME="$here/target/cache" MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks"
    cargo +nightly miri run --offline --locked -q -- mini C14:values 1 0 1
  ) >"$here/target/miri.log" 2>&1 &
  m=$!
  (
    export CARGO_TARGET_DIR="$here/target/asan" RUSTFLAGS="-Zsanitizer=address"
    cargo +nightly build --offline --locked --target x86_64-unknown-linux-gnu
  ) >"$here/target/asan.log" 2>&1
  a=$?
  # A report of the interpreter is for the monitor to make; here only whether it builds counts.
  if ! wait $m && ! grep -qa '^case 0' "$here/target/miri.log"; then
    tail -40 "$here/target/miri.log" >&2
    echo "the interpreter does not start" >&2
    exit 3
  fi
  if [ $a != 0 ]; then
    tail -40 "$here/target/asan.log" >&2
    echo "the instrumented harness does not build" >&2
    exit 3
  fi
}
w=
if [ "$1" = C14 ]; then
  watched &
  w=$!
fi
build harness
if [ -n "$w" ]; then wait $w || exit 3; fi
case "$1" in --build | C19) build cli ;; esac
[ "$1" = --build ] && exit 0
ulimit -c 0
exec "$here/target/debug/ldmon" check "$1"
