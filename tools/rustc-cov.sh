#!/bin/bash
# rustc wrapper: compiles the crates under test (only them) with a call to
# __sanitizer_cov_trace_pc_guard at every basic block; simsched turns those into scheduling points.
prev=""
for a in "$@"; do
    if [ "$prev" = "--crate-name" ] && { [ "$a" = "jagua_rs" ] || [ "$a" = "lbf" ]; }; then
        exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=2 -Cllvm-args=-sanitizer-coverage-trace-pc-guard
    fi
    prev="$a"
done
exec "$@"
