#!/bin/sh
# rustc, with coverage and comparison tracing for the observed crate and the monitors
prev= ; hit=
for a in "$@"; do
    if [ "$prev" = --crate-name ]; then
        case "$a" in zkevm_opcode_defs|monitor) hit=1 ;; esac
    fi
    prev=$a
done
if [ -n "$hit" ]; then
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares
fi
exec "$@"
