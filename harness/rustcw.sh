#!/bin/sh
# RUSTC_WRAPPER: adds edge instrumentation to the code under test only.
rustc="$1"; shift
case " $* " in
  *" --crate-name templito "*|*" --crate-name gobble "*|*" --crate-name sut "*)
    exec "$rustc" "$@" -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
