#!/bin/bash
# Compiles the crates under test (and the crate that instantiates their generics) with callbacks for edges and
# memory accesses, which are the scheduler's preemption points.
rustc="$1"; shift
case " $* " in
    *" --crate-name oauth1_request "*|*" --crate-name oauth_credentials "*|*" --crate-name sim "*)
        exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
            -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
esac
exec "$rustc" "$@"
