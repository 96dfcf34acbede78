#!/bin/bash
# RUSTC_WRAPPER: instruments the crate under test (and only it) with SanitizerCoverage callbacks, and
# turns its atomic operations into calls. The simulator (src/rt.rs) implements both: they are its
# scheduling points.
rustc="$1"; shift
extra=()
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ] && [ "$a" = "over" ]; then
    extra=("-Cpasses=sancov-module function(tsan)" -Cllvm-args=-tsan-instrument-memory-accesses=0
           -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0
           -Cllvm-args=-tsan-handle-cxx-exceptions=0 -Cllvm-args=-sanitizer-coverage-level=3
           -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-pc-table
           -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
           -Ccodegen-units=1)
  fi
  prev="$a"
done
exec "$rustc" "$@" "${extra[@]}"
