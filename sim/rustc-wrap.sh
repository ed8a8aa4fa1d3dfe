#!/bin/sh
# RUSTC_WRAPPER: instruments only the crates under test (kryoptic_lib, ossl)
# with SanitizerCoverage edge callbacks; the simulator turns each callback
# into a possible preemption point.  No source change in /repo is needed.
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in
      kryoptic_lib|ossl)
        exec "$@" --cfg kryoptic_sim -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
    esac
  fi
  prev="$a"
done
exec "$@"
