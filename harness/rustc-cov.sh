#!/bin/sh
# rustc wrapper: coverage and comparison callbacks for the crate under test only; with
# ED448_TRACE (C21) also the addresses of loads and stores, and the code it inlines elsewhere.
sc="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-compares \
  -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=1"
for a in "$@"; do
  case "$a:$ED448_TRACE" in
    ed448_goldilocks:) exec "$@" $sc ;;
    ed448_goldilocks:1 | subtle:1 | ctprobe:1)
      exec "$@" $sc -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  esac
done
exec "$@"
