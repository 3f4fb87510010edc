#!/bin/bash
# RUSTC_WRAPPER: the code under test, and nothing else, calls the scheduler at every basic block
# and around every load and store.
case " $* " in
    *" --crate-name unicode_intervals "* | *" --crate-name uvh_calls "*)
        exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
            -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads \
            -Cllvm-args=-sanitizer-coverage-trace-stores -Ccodegen-units=1
        ;;
    *) exec "$@" ;;
esac
