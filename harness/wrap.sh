#!/bin/bash
# rustc wrapper: coverage instrumentation for the library and the harness only,
# where the library's generic functions are compiled
for a in "$@"; do
  if [ "$p" = --crate-name ] && { [ "$a" = subtile ] || [ "$a" = vh ]; }; then
    exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-compares
  fi
  p=$a
done
exec "$@"
