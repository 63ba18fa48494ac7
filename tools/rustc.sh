#!/bin/bash
# Adds coverage instrumentation to the code under test and to the code it is inlined into.
case " $* " in
*" --crate-name whasm "* | *" --crate-name harness "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares
    ;;
*) exec "$@" ;;
esac
