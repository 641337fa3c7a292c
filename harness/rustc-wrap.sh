#!/bin/bash
# RUSTC_WRAPPER: instruments the crate under test (and only it) with
# SanitizerCoverage edge callbacks, which the engine uses as a deterministic
# step counter and as coverage feedback.
rustc="$1"; shift
case " $* " in
  *" --crate-name layout "*)
    exec "$rustc" "$@" -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
