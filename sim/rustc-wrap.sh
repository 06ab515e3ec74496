#!/bin/bash
# RUSTC_WRAPPER: compiles the library under test (and the crate that
# instantiates its generics) with callbacks on every edge, load and store:
# the simulator's scheduling points. Every other crate is compiled unchanged.
name=
prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name=$a
  prev=$a
done
case "$name" in
  sparsetools|work)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$@" ;;
esac
