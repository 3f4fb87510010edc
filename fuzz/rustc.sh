#!/bin/bash
# RUSTC_WRAPPER: the code under test, and nothing else, is built with coverage and comparison
# hooks for libFuzzer.
case " $* " in
    *" --crate-name unicode_intervals "* | *" --crate-name uvh_calls "*)
        exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 \
            -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table \
            -Cllvm-args=-sanitizer-coverage-trace-compares -Ccodegen-units=1
        ;;
    *) exec "$@" ;;
esac
