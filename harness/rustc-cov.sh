#!/bin/sh
# RUSTC_WRAPPER: edge counters for the library under test and the code that
# instantiates it; nothing else is instrumented.
case " $* " in
*" --crate-name libyaml_safer "*|*" --crate-name harness "*)
  exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters ;;
*) exec "$@" ;;
esac
