#!/bin/bash
# RUSTC_WRAPPER of the instrumented build: LLVM's sanitizer coverage for the library under
# test (edges and comparisons) and for the checker (edges). Nothing else is instrumented.
edges=(-C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3
       -C llvm-args=-sanitizer-coverage-inline-8bit-counters)
for a in "$@"; do
    case "$a" in
        il2_iltags) exec "$@" "${edges[@]}" -C llvm-args=-sanitizer-coverage-trace-compares ;;
        ilcheck) exec "$@" "${edges[@]}" ;;
    esac
done
exec "$@"
