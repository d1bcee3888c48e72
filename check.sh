#!/bin/sh
# check.sh <property> : rebuilds the code under test from /repo and runs the check
# check.sh <property> thorough : the same, 25 times as deep
# check.sh build      : only builds
# check.sh replay <f> : runs one saved case again
export CARGO_TARGET_DIR=/verif/target RUSTC_WRAPPER=/verif/harness/rustcw.sh RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
log=/verif/target/build.log
mkdir -p /verif/target
if ! (cd /verif/harness && cargo build --offline --quiet >"$log" 2>&1); then
  cat "$log"
  echo "BUILD FAILED" >&2
  exit 2
fi
[ "$2" = thorough ] && export VERIF_TIER=thorough
case "$1" in
  build) exit 0 ;;
  replay) shift; exec /verif/target/debug/vh replay "$@" ;;
  *) exec /verif/target/debug/vh check "$1" ;;
esac
