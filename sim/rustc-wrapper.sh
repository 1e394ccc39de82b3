#!/bin/bash
# cargo's RUSTC_WRAPPER: instruments the basic blocks of the code under test (and of the decoders
# and encoders it calls), so that the simulator gets a step clock and preemption points.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  d10|d10_core|d10_ops|d10_codecs|d10_commands|png|gif|image|jpeg_decoder|jpeg_encoder|weezl|color_quant|fdeflate)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard
    ;;
esac
exec "$rustc" "$@"
