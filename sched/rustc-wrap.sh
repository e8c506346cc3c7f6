#!/bin/bash
# Compiles the library with a callback at the start of every basic block
case " $* " in
*" --crate-name magmaflow "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-prune-blocks=0
    ;;
esac
exec "$@"
