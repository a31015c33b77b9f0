#!/bin/bash
# RUSTC_WRAPPER: link the crate under test and the thread pool against the standard
# library with the controlled scheduler. MC_OUT: cargo's output directory.
prev=; name=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name=$a
  prev=$a
done
case "$name" in
  mbqc_scheduling) exec "$@" --extern "std=$MC_OUT/libmcstd.rlib" -L "dependency=$MC_OUT/deps" ;;
  scoped_threadpool) exec "$@" --extern "std=$MC_OUT/libmcstdq.rlib" -L "dependency=$MC_OUT/deps" ;;
  *) exec "$@" ;;
esac
